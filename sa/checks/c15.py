"""Map semantics of the key/value and counter calls: the list operations are interpreted abstractly (sa/libm.py) from every list of up to three entries under every sequence of two (keys) or three (counters) operations, and the resulting abstract list is compared with the map the operations denote."""
from .. import libs
def run(rep):
    libs.run(rep, 'C15', ['w_hash', 'w_counter'], 1)
