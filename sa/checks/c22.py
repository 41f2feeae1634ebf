"""Decoder state analysis: abstract interpretation of every native decoder (sa/drive.py) -- the outcome at a byte depends on no later byte of the chunk and on nothing but the private state, and leaves the position at that byte."""
from .. import ir, sweep, libs
def run(rep):
    us = [u for u in ir.codec_units() if u.startswith('from/')]
    sweep.run(rep, 'C22', us, 12)
    libs.run(rep, 'C22', libs.ENGINE, 4)
