"""File skeletons and what the rules of Humdrum notation say they contain (written independently of the reader)."""
from __future__ import annotations
from fractions import Fraction

TYPE = {1: 'w', 2: 'h', 4: 'q', 8: 'e', 16: 's', 32: 't', 64: 'x', 128: 'y'}
STEPS = 'cdefgab'


def kern(k):
    """the k-th white key upwards from c, in Humdrum and as a pitch name"""
    o, s = divmod(k, 7)
    c = STEPS[s]
    return (c * (o + 1) if o >= 0 else c.upper() * -o), f'{c.upper()}{o + 4}'


def recip(r):
    """(quarter length, type letter with dots, tuplet 'n:m' or '')"""
    dots = len(r) - len(r.rstrip('.'))
    n = r.rstrip('.')
    if n in ('0', '00', '000'):
        q = Fraction(4) * 2 ** len(n)
        t, tup = {'0': 'B', '00': 'L', '000': 'M'}[n], ''
    else:
        v = int(n)
        p = 1
        while p * 2 <= v:
            p *= 2
        q = Fraction(4, v)
        t = TYPE[p]
        f = Fraction(v, p)
        tup = '' if f == 1 else f'{f.numerator}:{f.denominator}'
    return q * (2 - Fraction(1, 2 ** dots)), t + '.' * dots, tup


FLAGS = {'e': 1, 's': 2, 't': 3, 'x': 4, 'y': 5}


def voice(notes, where, start=Fraction(0), k0=0):
    """notes: [(recip, options)], options: 'r' rest, '(' ')' tuplet starts/ends here, 't3:2' tuplet ratio, 'B' begins a beam,
    'E' ends it, 'b' secondary beams break after this note -> tokens with times, facts"""
    toks, facts, beams = [], [], []
    t = Fraction(start)
    group = None
    info = []
    for i, (r, opt) in enumerate(notes):
        q, ty, tup = recip(r)
        for o in opt.split():
            if ':' in o:
                tup = o[1:]
        kk, pn = kern(k0 + i)
        rest = 'r' in opt.split()
        name = 'r' if rest else pn
        mark = '(' if '(' in opt.split() else ')' if ')' in opt.split() else ''
        w = f'{where} {t} {name}'
        facts.append(f'{w} {ty}' + (f' {tup}{mark}' if tup else ''))
        info.append({'t': t, 'r': r, 'k': 'r' if rest else kk, 'w': w, 'fl': 0 if rest else FLAGS.get(ty.rstrip('.'), 0), 'opt': opt.split(), 'beam': ''})
        t += q
    # beams: groups from B to E; level k of a note joins its neighbour in the group when both have k flags (and no break)
    i = 0
    while i < len(info):
        if 'B' not in info[i]['opt']:
            i += 1
            continue
        j = i
        while 'E' not in info[j]['opt']:
            j += 1
        idx = [x for x in range(i, j + 1) if info[x]['k'] != 'r']
        for p, x in enumerate(idx):
            n = info[x]
            s = ''
            L = J = K = kk = 0
            for lev in range(1, n['fl'] + 1):
                def joined(a, b):
                    if min(info[a]['fl'], info[b]['fl']) < lev:
                        return False
                    return not (lev > 1 and any('b' in info[z]['opt'] for z in range(a, b)))
                left = p > 0 and joined(idx[p - 1], x)
                right = p + 1 < len(idx) and joined(x, idx[p + 1])
                if left and right:
                    s += '='
                elif left:
                    s += ']'
                    J += 1
                elif right:
                    s += '['
                    L += 1
                elif p == 0 or (p + 1 < len(idx) and 'K' in n['opt']):
                    s += '>'
                    K += 1
                else:
                    s += '<'
                    kk += 1
            n['beam'] = 'L' * L + 'J' * J + 'K' * K + 'k' * kk
            beams.append(f"{n['w']} {s}")
        i = j + 1
    for n in info:
        toks.append((n['t'], n['r'] + n['k'] + n['beam']))
    return toks, facts, beams, t


def grid(cols):
    """cols: list of token lists [(time, token)] -> data lines"""
    times = sorted({t for c in cols for t, _ in c})
    out = []
    for t in times:
        out.append(' '.join(dict(c).get(t, '.') for c in cols))
    return out


def case(name, src, where='HumdrumFile.createMusic21Stream', keep=None, **want):
    return {'name': name, 'src': src, 'where': where, 'want': want, 'keep': keep or {}}


def single(name, notes, where, meter='*M4/4', k0=0, extra=(), **kw):
    toks, facts, beams, t = voice(notes, 'P1 m1v1', k0=k0)
    src = '\n'.join(['**kern', *extra, *([meter] if meter else []), '=1', *[x for _, x in toks], '==', '*-'])
    return case(name, src, where, notes=facts, beams=beams, **kw)


def N(s):
    """'4 8.B 16E' -> notes; a rest is '4r'; options after commas"""
    out = []
    for w in s.split():
        parts = w.split(',')
        r = parts[0]
        opt = list(parts[1:])
        head = r.rstrip('BErbK()')
        for c in r[len(head):]:
            opt.append(c)
        out.append((head, ' '.join(opt)))
    return out


def rhythm(tier):
    W = 'HumdrumFile._convertRhythm'
    out = []
    plain = ['1', '2 2', '4 4 4 4', '2. 4', '4. 8 2', '2.. 8', '4.. 16 2', '8. 16 4 2', '0', '00', '0.', '8 8 8 8 8 8 8 8',
             '16 16 16 16 4 2', '32 32 16 8 4 2', '64 64 32 16 8 4 2', '128 128 64 32 16 8 4 2', '4r 4 4r 4', '1r', '2r. 4'.replace('r.', '.r'),
             '8r 8 8r 8 2', '8.. 32 4 2', '1.', '1..']
    for p in plain:
        out.append(single(f'rhythm {p}', N(p), W, meter=None if p in ('0', '00', '0.', '1.', '1..') else '*M4/4'))
    return out


def tuplets(tier):
    W = 'HumdrumFile._prepareBeamAndTupletGroups'
    out = []
    for name, p in (
            ('a triplet of eighths', '12B( 12 12E) 4 2'), ('triplets twice', '12B( 12 12E) 12B( 12 12E) 2'),
            ('a triplet of quarters', '6( 6 6) 2'), ('a triplet of halves', '3( 3 3)'),
            ('quarter and eighth in a triplet', '6( 12) 4 2'), ('eighth and quarter in a triplet', '12( 6) 4 2'),
            ('a quintuplet of sixteenths', '20B( 20 20 20 20E) 4 2'), ('a quintuplet of eighths', '10B( 10 10 10 10E) 2'),
            ('a septuplet', '28B( 28 28 28 28 28 28E) 4 2'),
            ('a rest in a triplet', '12r( 12B 12E) 4 2'), ('a rest inside a triplet', '12B( 12r 12E) 4 2'),
            ('a rest at the end of a triplet', '12B( 12E 12r) 4 2'),
            ('a triplet after plain notes', '4 12B( 12 12E) 2'), ('a triplet at the end', '2 4 12B( 12 12E)'),
            ('triplet and quintuplet', '12B( 12 12E) 20B( 20 20 20 20E) 2'),
            ('a dotted note in a triplet', '12.B( 24 12E) 4 2'),
            ('sixteenths in a triplet', '12B( 24 24 12E) 4 2')):
        out.append(single(name, N(p), W))
    return out


def beams(tier):
    W = 'HumdrumFile._analyzeLayerBeams'
    out = []
    for name, p in (
            ('two eighths', '8B 8E 4 2'), ('four eighths', '8B 8 8 8E 2'), ('two groups', '8B 8E 8B 8E 2'),
            ('four sixteenths', '16B 16 16 16E 4 2'), ('dotted eighth and sixteenth', '8.B 16E 4 2'),
            ('sixteenth and dotted eighth', '16B 8.E 4 2'), ('eighth and two sixteenths', '8B 16 16E 4 2'),
            ('two sixteenths and eighth', '16B 16 8E 4 2'), ('sixteenth eighth sixteenth', '16B 8 16E 4 2'),
            ('thirty-seconds', '16B 32 32 8E 4 2'), ('eight sixteenths with a break', '16B 16 16 16b 16 16 16 16E 2'),
            ('a rest under a beam', '8B 8r 8 8E 2'), ('flags', '8 8 16 16 16 16 4 4'), ('beam and flags', '8B 8E 8 8 2'),
            ('two dotted figures', '8.B 16 8. 16E 2'), ('a beam at the end', '2 4 8B 8E'),
            ('dotted sixteenth', '16.B 32 16. 32E 4 2'), ('sixty-fourths', '64B 64 64 64 64 64 64 64 64 64 64 64 64 64 64 64E 4 2')):
        out.append(single(name, N(p), W))
    return out


def written(data='c14data.txt'):
    """the skeletons and statements of a data file: [(family, rule, cases)]"""
    import os
    out = []
    cur, part = None, ''
    with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), data), encoding='utf-8') as fp:
        for line in fp:
            line = line.rstrip('\n')
            if line.startswith('# '):
                name, rule = [x.strip() for x in line[2:].split('|')]
                out.append((name, rule, []))
                cur = None
            elif line.startswith('@ '):
                name, asp, where = [x.strip() for x in line[2:].split('|')]
                cur = case(name, '', where, **{a: [] for a in asp.split(',')})
                cur['lines'] = []
                out[-1][2].append(cur)
                part = 'src'
            elif not line.strip():
                continue
            elif line == '--':
                cur['src'] = '\n'.join(cur.pop('lines'))
                part = 'facts'
            elif part == 'src':
                cur['lines'].append(line)
            else:
                asp, fact = line.split(' ', 1)
                cur['want'][asp].append(fact)
    return out


def families(tier):
    return [(name, rule, cases, max(1, len(cases) // 2)) for name, rule, cases in written()] + [
        ('rhythm', 'each note and rest is in its measure at the time and with the duration type and dots it is spelled with', rhythm(tier), 1),
        ('tuplets', 'notes with a tuplet duration carry the ratio, and the tuplet starts and stops at the ends of its group', tuplets(tier), 1),
        ('beams', 'beams start, continue and stop at each level where the file says', beams(tier), 1),
    ]
