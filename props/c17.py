"""C17: a score which is written to MEI and read back is the score it was (see props/c16.py)."""
from __future__ import annotations
from props.c14 import decide
from props.c16 import analyse, families

EXPLANATION = ('abstract interpretation of MeiWriter.write on the abstract scores of file skeletons, and of the MEI reader on the element '
               'tree it writes; the statements which hold of the score read back are compared with those which hold of the score written')


def run(rep):
    decide(rep, families(('mm', 'hm'), rep.tier), analyse)
