"""Return-status analysis of cbconv: abstract interpretation of every native codec (sa/drive.py) -- every path through cbconv from every reachable private state leaves a status the engine acts on.
Each callback is interpreted over symbolic input from every private state reachable under the engine's calling
contract; a finding names the unit, the callback and the line."""
from .. import sweep, libs
def run(rep):
    sweep.run(rep, 'C03')
    libs.run(rep, 'C03', libs.ENGINE, 4)
