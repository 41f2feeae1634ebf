"""State comparison: abstract interpretation of every native codec (sa/drive.py) -- from every reachable private state, cbinit leads to a state that answers every call as a fresh conversion does.
Each callback is interpreted over symbolic input from every private state reachable under the engine's calling
contract; a finding names the unit, the callback and the line. bsdconv_init is interpreted from an instance in the middle of a stream (sa/libm.py)."""
from .. import sweep, libs
def run(rep):
    sweep.run(rep, 'C05')
    libs.run(rep, 'C05', ['w_init'], 1)
