"""Ownership typestate over the native codecs: abstract interpretation of every native codec (sa/drive.py) -- every block, unit, stream, loaded table and inner conversion a codec acquires is released exactly once: nothing live is lost by a callback, by a failing cbcreate, or after cbdestroy; nothing is released twice or used afterwards.
Each callback is interpreted over symbolic input from every private state reachable under the engine's calling
contract; a finding names the unit, the callback and the line. The public calls of the library are interpreted in the same way (sa/libw.py)."""
from .. import sweep, libs
def run(rep):
    sweep.run(rep, 'C02')
    libs.run(rep, 'C02', ['w_strings', 'w_create', 'w_lookup', 'w_load', 'w_data', 'w_init', 'w_hash', 'w_counter', 'w_output'] + ['w_tool'] + libs.ENGINE, 10)
