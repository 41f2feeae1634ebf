"""Decoder state analysis: abstract interpretation of every native decoder (sa/drive.py) -- after a rejection the decoder answers every further call exactly as some resting state does."""
from .. import ir, sweep
def run(rep):
    us = [u for u in ir.codec_units() if u.startswith('from/')]
    sweep.run(rep, 'C26', us, 12)
