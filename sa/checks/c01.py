"""Working-directory typestate: every public call of the library is interpreted abstractly (sa/lib.py); on every path, with every environment call failing or succeeding, the directory in force at the return must be the one saved at the entry, restored from a saved name that is still valid."""
from .. import libs
def run(rep):
    libs.run(rep, 'C01', ['w_lookup', 'w_load', 'w_create'], 1)
