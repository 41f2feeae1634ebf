"""Protocol typestate of the command-line converter: main() of src/bsdconv.c is interpreted abstractly (sa/libt.py); each input must be handed to a conversion initialised for it, chunk by chunk in the order read, ended exactly once at its end, and its text must go to one place only."""
from .. import libs
def run(rep):
    libs.run(rep, 'C29', ['w_tool'], 1)
