"""File-system typestate of the command-line converter's in-place mode: main() of src/bsdconv.c is interpreted abstractly (sa/libt.py) over argument vectors with none, one and two files, every call that can fail split into success and failure and reads delivering chunks before an end or an error. After every call that changes the file system the named file must be the whole original or the whole, closed result with the original's attributes."""
from .. import libs
def run(rep):
    libs.run(rep, 'C12', ['w_tool'], 1)
