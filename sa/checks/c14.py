"""Held-input analysis: abstract interpretation of every native codec (sa/drive.py) -- a codec keeps input back only under a status that makes the engine flush it, and cbflush gives all of it back.
Each callback is interpreted over symbolic input from every private state reachable under the engine's calling
contract; a finding names the unit, the callback and the line."""
from .. import sweep, libs
def run(rep):
    sweep.run(rep, 'C14')
    libs.run(rep, 'C14', libs.ENGINE, 4)
