"""UTF-8 acceptance: the decoder is interpreted over every class of ill-formed sequences and over all well-formed ones, in its
default mode and under each option (sa/formats.py)."""
from .. import formats as f
def run(rep):
    cov = dict(codecs=set()); f.utf8(rep.violation, cov); f.done(rep, cov, 1, 400)
