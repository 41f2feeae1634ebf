"""Unicode transformation formats: symbolic bit provenance of every encoder and decoder over the whole code space, block by
block (sa/blocks.py, sa/forms.py), compared with the positional formulas of the standard (sa/formats.py)."""
from .. import formats as f
def run(rep):
    cov = dict(codecs=set())
    for n in f.ENC: f.encoder(n, rep.violation, cov)
    for n in f.DEC: f.decoder(n, rep.violation, cov)
    f.carried(rep.violation, cov)
    f.done(rep, cov, 12, 150)
