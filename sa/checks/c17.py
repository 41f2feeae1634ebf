"""Null/uninitialised/argument analysis of creation: abstract interpretation of every native codec (sa/drive.py) -- cbcreate, cbinit and cbdestroy survive every argument list (no value, no key, odd value) and every failing library call.
Each callback is interpreted over symbolic input from every private state reachable under the engine's calling
contract; a finding names the unit, the callback and the line. The public calls of the library are interpreted with every environment call failing or succeeding (sa/libw.py)."""
from .. import sweep, libs
def run(rep):
    sweep.run(rep, 'C17')
    libs.run(rep, 'C17', ['w_strings', 'w_create', 'w_lookup', 'w_load', 'w_data'] + ['w_tool'] + libs.ENGINE + libs.MK, 6)
