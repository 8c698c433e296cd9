"""C16, C17: a score which is written to Humdrum (MEI) and read back is the score it was.

Deciding step: a writer (HumdrumWriter.write, MeiWriter.write) is interpreted abstractly on the abstract scores which the readers
give for the file skeletons of C14 and C15, the text (the element tree) it writes is known in all its characters and is given to
the reader, interpreted abstractly too.  The score read back is read off as statements, and those are compared with the statements
which hold of the original (props/c14data.txt, props/c15data.txt).  What a format has no notation for (props/c16lossy.txt) is left
out.  A statement with an unknown in it decides nothing."""
from __future__ import annotations
import os
import re
from props.common import *
from props.m21h import install, View
from props.facts import Facts, UNK
from props.c14 import humdrum, outcome, decide
from props.c14cases import families as humdrum_families, written
from props.humf import HF
from props.meih import MEI
from props.meis import read as mei


def sink(ip):
    return ip.instantiate(ip.cls('music21._sink.Sink'), [], {})


def written_to(ip, cls, score):
    """what the writer gives to the file object, piece by piece"""
    model(ip, 'M21Utilities', 'adjustMusic21Behavior', lambda ip_, a, k: None)
    count = [0]

    def uuid(ip_, a, k):
        count[0] += 1
        return f'uuid-{count[0]}'
    ip.models['uuid.uuid4'] = uuid
    w = ip.instantiate(ip.cls(cls), [score], {})
    ip.setattr(w, 'makeNotation', False)
    s = sink(ip)
    f = ip.fn(cls, 'write')
    ip.call(FuncRef(f.node, f.mod, f.cls, w), [s], {})
    return [ip.deref(x) for x in ip.deref(ip.getattr(s, 'out')).v]


def through_humdrum(ip, score):
    out = written_to(ip, 'HumdrumWriter', score)
    if not all(isinstance(x, str) for x in out):
        raise Cut('the text written is not known')
    return HF(ip, ''.join(out), 'HumdrumFile', notation=False).m('createMusic21Stream')


def through_mei(ip, score):
    M = MEI(ip)
    roots = [x for x in written_to(ip, 'MeiWriter', score) if isinstance(x, Obj)]
    if len(roots) != 1:
        raise Cut('the document written is not known')
    model(ip, 'MeiReader', 'makeMetadata', lambda ip_, a, k: None)      # C10's subject
    rd = ip.deref(ip.instantiate(ip.cls('MeiReader'), [], {}))
    rd.attrs['documentRoot'] = M.parsed(roots[0])
    rd.attrs['meiVersion'] = '5.0'
    return M.r(rd, 'run')


TRIPS = {'hh': (humdrum, through_humdrum), 'mh': (mei, through_humdrum),
         'mm': (mei, through_mei), 'hm': (humdrum, through_mei)}


def plain(facts):
    """signs other than notes belong to a measure, whichever voice they are stored in; anchors of spanners are no signs"""
    if 'others' in facts:
        facts = dict(facts)
        facts['others'] = sorted(re.sub(r'^(P\d+ m\S+?)v\d+ ', r'\1 ', x) for x in facts['others'] if 'SpannerAnchor' not in x)
    return facts


def analyse(job):
    trip, src = job
    first, second = TRIPS[trip]
    r, ip = outcome(src, lambda ip, s: second(ip, first(ip, s)), 12000000)
    if r[0] == 'facts':
        r = ('facts', plain(r[1]))
    return r, ip


def lossy():
    out = set()
    with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'c16lossy.txt'), encoding='utf-8') as fp:
        for line in fp:
            if line.strip() and not line.startswith('#'):
                out.add(tuple(x.strip() for x in line.split('|')))
    return out


def sources(kind, tier):
    if kind == 'h':
        return [(n, r, c) for n, r, c, _ in humdrum_families(tier)]
    return written('c15data.txt')


def families(trips, tier, without=None):
    without = lossy() if without is None else without
    out = []
    for t in trips:
        for name, rule, cases in sources(t[0], tier):
            cs = []
            for c in cases:
                want = {a: w for a, w in plain(c['want']).items() if (t, c['name'], a) not in without}
                if want and (t, c['name'], '*') not in without:
                    c = dict(c, src=(t, c['src']), want=want, where='HumdrumWriter.write' if t[1] == 'h' else 'MeiWriter.write')
                    if 'keep' in c and 'others' in (c['keep'] or {}):
                        c['keep'] = {k: v for k, v in c['keep'].items() if k != 'others'}
                    cs.append(c)
            if cs:
                out.append((f"{name} ({'Humdrum' if t[0] == 'h' else 'MEI'} skeletons)", f'written and read back: {rule}', cs,
                            max(1, len(cs) // 2)))
    return out


EXPLANATION = ('abstract interpretation of HumdrumWriter.write on the abstract scores of file skeletons, and of the Humdrum reader on the '
               'text it writes; the statements which hold of the score read back are compared with those which hold of the score written')


def run(rep):
    decide(rep, families(('hh', 'mh'), rep.tier), analyse)
