"""Bounds and pointer analysis: abstract interpretation of every native codec (sa/drive.py) -- every load, store, copy and formatted write of a callback stays inside its object for every unit the dispatch table can hand it.
Each callback is interpreted over symbolic input from every private state reachable under the engine's calling
contract; a finding names the unit, the callback and the line. The public calls of the library are interpreted in the same way (sa/libw.py)."""
from .. import sweep, libs, blocks
def run(rep):
    sweep.run(rep, 'C21')
    blocks.plains(rep, 'C21')
    libs.run(rep, 'C21', ['w_strings', 'w_create', 'w_lookup', 'w_load', 'w_data', 'w_output'] + ['w_tool'] + libs.ENGINE + libs.MK, 6)
