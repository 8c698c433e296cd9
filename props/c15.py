"""C15: the score read from an MEI file has the music the file spells.

Deciding step: MeiReader.run (everything but the metadata, which is C10's) is interpreted abstractly on the element trees of
file skeletons, with music21 modelled as in C14.  The abstract score is read off as statements, and those are compared with what
the MEI guidelines say the file contains (props/c15data.txt).  A statement with an unknown in it decides nothing."""
from __future__ import annotations
from props.common import *
from props.c14 import analyse, decide
from props.c14cases import written
from props.meis import read

EXPLANATION = ('abstract interpretation of MeiReader.run on file skeletons, with music21 modelled; the parts, measures, notes, '
               'tuplets, beams, ties, spanners, ornaments, texts, signatures and groups of the abstract score are compared with '
               'those which the MEI guidelines give for the file')


def one(src):
    return analyse(src, read)


def run(rep):
    decide(rep, [(n, r, c, max(1, len(c) // 2)) for n, r, c in written('c15data.txt')], one)
