"""Output-unit analysis: abstract interpretation of every native codec (sa/drive.py) -- every unit a codec emits has data, length, flags and a terminated list; its bytes are initialised up to its length and owned exactly once.
Each callback is interpreted over symbolic input from every private state reachable under the engine's calling
contract; a finding names the unit, the callback and the line. Units the library itself builds are judged too (sa/libm.py)."""
from .. import sweep, libs
def run(rep):
    sweep.run(rep, 'C04')
    libs.run(rep, 'C04', ['w_data', 'w_create'] + libs.ENGINE, 5)
