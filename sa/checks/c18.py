"""Write-effect analysis: abstract interpretation of every native codec (sa/drive.py) -- no codec stores into input bytes it does not own, table bytes, or string constants.
Each callback is interpreted over symbolic input from every private state reachable under the engine's calling
contract; a finding names the unit, the callback and the line. The library's own stores are judged too."""
from .. import sweep, libs, blocks
def run(rep):
    sweep.run(rep, 'C18')
    blocks.plains(rep, 'C18')
    libs.run(rep, 'C18', ['w_strings', 'w_create', 'w_lookup', 'w_data', 'w_output'] + ['w_tool'] + libs.ENGINE, 6)
