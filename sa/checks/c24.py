"""Shape analysis of conversion strings: bsdconv_unpack, bsdconv_pack and the editing calls are interpreted abstractly (sa/libw.py) over strings whose letters are symbols, for every listed shape and every index from below the first to past the last, and the resulting text is compared with the edit applied to the structure."""
from .. import libs
def run(rep):
    libs.run(rep, 'C24', ['w_strings'], 1)
