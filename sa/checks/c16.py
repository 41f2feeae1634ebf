"""Output hand-over: the end of bsdconv() is interpreted abstractly (sa/libm.py) for every output mode over pending lists of up to three units, and the list, the tail, the owners and the bytes handed over are compared with what the mode promises."""
from .. import libs
def run(rep):
    libs.run(rep, 'C16', ['w_output'], 1)
