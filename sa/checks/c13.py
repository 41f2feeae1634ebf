"""Error counting: bsdconv() is interpreted with tables and callbacks that may answer anything (sa/libe.py); on every path the counters are compared with the number of rejected bytes (decoders) and units (encoders) of the specification. Creation is checked to register the counters the engine writes (sa/libw.py). Every native codec is interpreted (sa/drive.py): none changes the two counters (except ANY under its documented ERROR option, by one), and none puts something out for input it refuses."""
from .. import libs, sweep
def run(rep):
    sweep.run(rep, 'C13')
    libs.run(rep, 'C13', ['w_create'] + libs.ENGINE, 5)
