"""C01: Humdrum note spelling: pitch and rhythm survive write -> read."""
from __future__ import annotations
from fractions import Fraction
from props.common import *

EXPLANATION = (
    'Constant-propagation abstract interpretation of the Humdrum writer functions for pitch and rhythm, with the '
    'result fed to the reader functions, for every member of the finite vocabulary listed per rule (steps, octaves, '
    'alterations, note types, dots, tuplet ratios).  The oracle is the **kern/**recip/base-40 definition, computed '
    'independently in the rule.  Decides these spelling functions, not whole-score conversion.')
LEVEL = 'other'

STEPS = 'CDEFGAB'
B40 = {'C': 2, 'D': 8, 'E': 14, 'F': 19, 'G': 25, 'A': 31, 'B': 37}
B12 = {'C': 0, 'D': 2, 'E': 4, 'F': 5, 'G': 7, 'A': 9, 'B': 11}
ACC = {-3: '---', -2: '--', -1: '-', 0: '', 1: '#', 2: '##', 3: '###'}


def kern(step, octv, alter):
    if octv >= 4:
        return step.lower() * (octv - 3) + ACC[alter]
    return step * (4 - octv) + ACC[alter]


TYPES = {'maxima': 32, 'longa': 16, 'breve': 8, 'whole': 4, 'half': 2, 'quarter': 1, 'eighth': Fraction(1, 2),
         '16th': Fraction(1, 4), '32nd': Fraction(1, 8), '64th': Fraction(1, 16), '128th': Fraction(1, 32),
         '256th': Fraction(1, 64), '512th': Fraction(1, 128), '1024th': Fraction(1, 256)}
TUPLETS = [(3, 2), (5, 4), (6, 4), (7, 4), (7, 8), (9, 8), (2, 3), (4, 3), (10, 8), (11, 8), (13, 8), (3, 4), (5, 6),
           (8, 6), (12, 8), (15, 8), (5, 3), (7, 6)]


def num(fr):
    fr = Fraction(fr)
    d = fr.denominator
    return float(fr) if d & (d - 1) == 0 else fr


def dotf(d):
    return Fraction(2 ** (d + 1) - 1, 2 ** d)


def run(rep):
    ip = new_ip()
    ip.method_models[('Tuplet', 'tupletMultiplier')] = lambda ip_, o, a, k: o.attrs['__mult__']
    octs = range(-1, 10) if rep.tier == 'quick' else range(-3, 14)

    def mkpitch(step, octv, alter, status=None, style='normal'):
        acc = None
        if alter is not None:
            acc = mk(ip, 'music21.pitch.Accidental', alter=float(alter), displayStatus=status, displayStyle=style)
        return mk(ip, 'music21.pitch.Pitch', step=step, octave=octv, accidental=acc)

    def pitch_write():
        f = ip.fn('M21Convert', 'kernPitchFromM21Pitch')
        for step in STEPS:
            for o in octs:
                for alter in (None, -3, -2, -1, 0, 1, 2, 3):
                    for status in (False, True):
                        if alter is None and status:
                            continue
                        want = kern(step, o, alter or 0)
                        if status:
                            want += 'n' if alter == 0 else 'X'
                        judge(rep, ip, f'{step}{ACC[alter or 0]}{o} shown={status} -> {want}', 'M21Convert.kernPitchFromM21Pitch',
                              lambda: ip.call(f, [mkpitch(step, o, alter, status), None], {}),
                              lambda v: v == want)
    rep.family('pitch-written', 'the **kern pitch token of every step, octave and alteration is the one the **kern '
               'definition prescribes', pitch_write, 800)

    def pitch_read():
        f = ip.fn('M21Convert', 'm21PitchNameWithOctave')
        n = ip.fn('M21Convert', 'm21PitchName')
        okt = ip.fn('Convert', 'kernToOctaveNumber')
        for step in STEPS:
            for o in octs:
                for alter in (-3, -2, -1, 0, 1, 2, 3):
                    for deco in ('', 'n', 'X', "4.{}J", "(8{}/L'"):
                        if deco == 'n' and alter:
                            continue
                        k = kern(step, o, alter)
                        tok = deco.format(k) if '{}' in deco else k + deco
                        judge(rep, ip, f'token {tok}', 'M21Convert.m21PitchNameWithOctave',
                              lambda: ip.call(f, [tok], {}), lambda v: v == f'{step}{ACC[alter]}{o}')
                        judge(rep, ip, f'token {tok} name', 'M21Convert.m21PitchName',
                              lambda: ip.call(n, [tok], {}), lambda v: v == f'{step}{ACC[alter]}')
                        judge(rep, ip, f'token {tok} octave', 'Convert.kernToOctaveNumber',
                              lambda: ip.call(okt, [tok], {}), lambda v: v == o)
    rep.family('pitch-read', 'every **kern pitch token is read as the step, alteration and octave it spells',
               pitch_read, 2000)

    def numeric():
        tob40 = ip.fn('Convert', 'kernToBase40')
        fromb40 = ip.fn('Convert', 'base40ToKern')
        midi = ip.fn('Convert', 'kernToMidiNoteNumber')
        for step in STEPS:
            for o in range(0, 10):
                for alter in (-2, -1, 0, 1, 2):
                    k = kern(step, o, alter)
                    b = B40[step] + alter + 40 * o
                    judge(rep, ip, f'base40({k})', 'Convert.kernToBase40', lambda: ip.call(tob40, [k], {}),
                          lambda v: v == b)
                    judge(rep, ip, f'kern(b40 {b})', 'Convert.base40ToKern', lambda: ip.call(fromb40, [b], {}),
                          lambda v: v == k)
                    judge(rep, ip, f'midi({k})', 'Convert.kernToMidiNoteNumber', lambda: ip.call(midi, [k], {}),
                          lambda v: v == B12[step] + alter + 12 * (o + 1))
        b40n = ip.fn('M21Convert', 'base40ToM21PitchName')
        b7k = ip.fn('Convert', 'base7ToKern')
        kb7 = ip.fn('Convert', 'kernToBase7')
        for o in range(0, 10):
            for i, step in enumerate(STEPS):
                judge(rep, ip, f'kern(b7 {7 * o + i})', 'Convert.base7ToKern', lambda: ip.call(b7k, [7 * o + i], {}),
                      lambda v: v == kern(step, o, 0))
                judge(rep, ip, f'b7({kern(step, o, 0)})', 'Convert.kernToBase7',
                      lambda: ip.call(kb7, [kern(step, o, 0)], {}), lambda v: v == 7 * o + i)
                for alter in (-2, -1, 0, 1, 2):
                    b = B40[step] + alter + 40 * o
                    judge(rep, ip, f'm21name(b40 {b})', 'M21Convert.base40ToM21PitchName',
                          lambda: ip.call(b40n, [b], {}), lambda v: v == f'{step}{ACC[alter]}{o}')
    rep.family('pitch-numbers', 'base-40, base-7 and MIDI numbers of a **kern pitch are the defined ones, and their '
               'inverses give the pitch back', numeric, 500)

    def clefbase():
        f = ip.fn('Convert', 'kernClefToBaseline')
        # pitch of the bottom staff line, base 7, from the clef definition
        for sh, ref in (('G', 4 + 7 * 4), ('F', 3 + 7 * 3), ('C', 7 * 4)):
            for line in range(1, 6):
                for ov, shift in (('', 0), ('v', -1), ('vv', -2), ('^', 1), ('^^', 2)):
                    txt = f'*clef{sh}{ov}{line}'
                    want = ref - 2 * (line - 1) + 7 * shift
                    judge(rep, ip, f'baseline({txt})', 'Convert.kernClefToBaseline', lambda: ip.call(f, [txt], {}),
                          lambda v: v == want)
    rep.family('clef-baseline', 'the bottom-line pitch of every clef is the one its shape, line and octave shift '
               'define', clefbase, 15)

    # ------------------------------------------------------------ rhythm
    def recip_of(ql):
        return Fraction(ql)

    todur = ip.fn('Convert', 'recipToDuration')
    nodots = ip.fn('Convert', 'recipToDurationNoDots')

    def recip_read():
        from itertools import chain
        cases = {}
        for d in range(0, 4):
            for n in chain((1, 2, 4, 8, 16, 32, 64, 128, 256, 3, 6, 12, 24, 48, 5, 10, 20, 7, 14, 28, 9, 18, 11, 13)):
                cases[f'{n}' + '.' * d] = (Fraction(4, n) * dotf(d), Fraction(4, n))
            for z in (1, 2, 3, 4):
                cases['0' * z + '.' * d] = (Fraction(4 * 2 ** z) * dotf(d), Fraction(4 * 2 ** z))
            for a, b in ((3, 2), (3, 4), (5, 2), (5, 4), (8, 3), (7, 4), (16, 9), (1, 3), (2, 3), (12, 7), (1024, 3)):
                cases[f'{a}%{b}' + '.' * d] = (Fraction(4 * b, a) * dotf(d), Fraction(4 * b, a))
        for tok, (full, nod) in cases.items():
            for deco in ('{}', '({}cc#L', '[{}GG-/'):
                s = deco.format(tok)
                judge(rep, ip, f'recip {s}', 'Convert.recipToDuration', lambda: ip.call(todur, [s], {}),
                      lambda v: frac(v) == full)
            judge(rep, ip, f'recip {tok} without dots', 'Convert.recipToDurationNoDots',
                  lambda: ip.call(nodots, [tok], {}), lambda v: frac(v) == nod)
        for g in ('8ccq', '16qq', 'q'):
            judge(rep, ip, f'grace {g}', 'Convert.recipToDuration', lambda: ip.call(todur, [g], {}), lambda v: frac(v) == 0)
    rep.family('rhythm-read', 'every **recip spelling (plain, zero, rational, dotted) denotes the duration the **recip '
               'definition gives', recip_read, 250)

    def qls():
        s = set()
        for ty, q in TYPES.items():
            for d in range(0, 4):
                s.add(Fraction(q) * dotf(d))
                for a, b in TUPLETS:
                    if Fraction(1, 64) <= q <= 16:
                        s.add(Fraction(q) * dotf(d) * Fraction(b, a))
        for k in range(1, 65):
            s.add(Fraction(k, 8))
        return sorted(s)

    def recip_inverse():
        fr = ip.fn('Convert', 'durationToRecip')
        for q in qls():
            def th():
                tok = ip.call(fr, [num(q)], {})
                return ip.call(todur, [tok], {})
            judge(rep, ip, f'durationToRecip {q}', 'Convert.durationToRecip', th, lambda v: frac(v) == q)
    rep.family('rhythm-inverse', 'spelling any duration as **recip and reading it back gives the same duration',
               recip_inverse, 300)

    def mkdur(**kw):
        d = dict(isGrace=False, linked=True, tuplets=(), dots=0)
        d.update(kw)
        return mk(ip, 'music21.duration.Duration', **d)

    ip.ctor_models['music21.duration.Duration'] = lambda ip_, c, a, k: mkdur(quarterLength=a[0] if a else k.get('quarterLength'))

    def dur_write():
        f = ip.fn('M21Convert', 'kernRecipFromM21Duration')

        def case(name, want, vwant, **kw):
            def th():
                out = ip.call(f, [mkdur(**kw)], {})
                out = ip.deref(out)
                a = ip.call(todur, [out[0]], {})
                v = out[1]
                b = ip.call(todur, [v], {}) if v != '' else None
                return (a, b)
            judge(rep, ip, name, 'M21Convert.kernRecipFromM21Duration', th,
                  lambda v: frac(v[0]) == want and (frac(v[1]) if v[1] is not None else None) == vwant,
                  f'expected {want}, visual {vwant}')
        for ty, q in TYPES.items():
            for d in range(0, 4):
                full = Fraction(q) * dotf(d)
                case(f'plain {ty} dots={d}', full, None, quarterLength=num(full), type=ty, dots=d)
                if q <= 4:
                    ges = Fraction(full) * 3 / 4
                    comp = mk(ip, 'music21.duration.DurationTuple', quarterLength=num(full), type=ty, dots=d)
                    case(f'visual {ty} dots={d} sounding {ges}', ges, full, quarterLength=num(ges), type=ty, dots=d,
                         linked=False, components=(comp,))
                for a, b in TUPLETS:
                    if not Fraction(1, 64) <= q <= 8:
                        continue
                    mult = Fraction(b, a)
                    tp = mk(ip, 'music21.duration.Tuplet', numberNotesActual=a, numberNotesNormal=b,
                            __mult__=num(mult))
                    case(f'tuplet {a}:{b} {ty} dots={d}', full * mult, None, quarterLength=num(full * mult), type=ty,
                         dots=d, tuplets=(tp,))
                    if (a, b) in ((3, 2), (5, 4)) and d <= 3:
                        case(f'visual tuplet {a}:{b} {ty} dots={d}', full * mult / 2, full,
                             quarterLength=num(full * mult / 2), type=ty, dots=d, tuplets=(tp,), linked=False)
    rep.family('duration-write', 'the recip written for a note (and its visual duration) denotes the duration of the '
               'note, with and without dots and tuplets', dur_write, 500)

    def grace():
        f = ip.fn('M21Convert', 'kernRecipFromM21Duration')
        for ty, q in TYPES.items():
            if q > 4:
                continue
            judge(rep, ip, f'grace {ty}', 'M21Convert.kernRecipFromM21Duration',
                  lambda: ip.call(todur, [ip.deref(ip.call(f, [mkdur(isGrace=True, type=ty, quarterLength=0.0)], {}))[0]], {}),
                  lambda v: frac(v) == q)
        g = ip.fn('M21Convert', 'kernGraceTypeFromM21Duration')
        cl = 'music21.duration.GraceDuration'
        for nm, o, want in (
                ('not grace', mk(ip, 'music21.duration.Duration', isGrace=False), ''),
                ('appoggiatura', mk(ip, 'music21.duration.AppoggiaturaDuration', isGrace=True), 'qq'),
                ('steals previous', mk(ip, cl, isGrace=True, stealTimePrevious=0.5, stealTimeFollowing=None, slash=None), 'q'),
                ('steals following', mk(ip, cl, isGrace=True, stealTimePrevious=None, stealTimeFollowing=0.5, slash=None), 'qq'),
                ('slash', mk(ip, cl, isGrace=True, stealTimePrevious=None, stealTimeFollowing=None, slash=True), 'q'),
                ('no slash', mk(ip, cl, isGrace=True, stealTimePrevious=None, stealTimeFollowing=None, slash=False), 'qq'),
                ('unmarked', mk(ip, cl, isGrace=True, stealTimePrevious=None, stealTimeFollowing=None, slash=None), 'q')):
            judge(rep, ip, f'grace type: {nm}', 'M21Convert.kernGraceTypeFromM21Duration',
                  lambda: ip.call(g, [o], {}), lambda v: v == want)
    rep.family('grace', 'a grace note keeps its printed note type and its accented/unaccented marking', grace, 10)

    def dots():
        f = ip.fn('M21Utilities', 'computeDurationNoDotsAndNumDots')
        g = ip.fn('M21Utilities', 'isPowerOfTwoWithDots')
        for ty, q in TYPES.items():
            for d in range(0, 4):
                judge(rep, ip, f'dots of {ty} dots={d}', 'M21Utilities.computeDurationNoDotsAndNumDots',
                      lambda: ip.call(f, [num(Fraction(q) * dotf(d))], {}),
                      lambda v: frac(v[0]) == q and v[1] == d)
                judge(rep, ip, f'expressible {ty} dots={d}', 'M21Utilities.isPowerOfTwoWithDots',
                      lambda: ip.call(g, [num(Fraction(q) * dotf(d))], {}), lambda v: v is True)
        for q in (Fraction(1, 3), Fraction(2, 3), Fraction(5), Fraction(9, 2), Fraction(4, 5), Fraction(11, 4)):
            judge(rep, ip, f'inexpressible {q}', 'M21Utilities.isPowerOfTwoWithDots',
                  lambda: ip.call(g, [num(q)], {}), lambda v: v is False)
            judge(rep, ip, f'no dots for {q}', 'M21Utilities.computeDurationNoDotsAndNumDots',
                  lambda: ip.call(f, [num(q)], {}), lambda v: frac(v[0]) == q and v[1] is None)
        s = ip.fn('M21Utilities', 'getPowerOfTwoQuarterLengthsWithDotsAddingTo')
        for k in range(1, 97):
            q = Fraction(k, 16)
            judge(rep, ip, f'split {q}', 'M21Utilities.getPowerOfTwoQuarterLengthsWithDotsAddingTo',
                  lambda: ip.call(s, [num(q)], {}),
                  lambda v: sum(frac(x) for x in v) == q)
    rep.family('dots', 'a duration is split into note type and dots (or a sum of them) that add up to it', dots, 150)

    def tempo():
        w = ip.fn('M21Convert', 'getHumdrumTempoNoteNameFromM21Duration')
        r = ip.fn('M21Convert', 'durationFromHumdrumTempoNoteName')
        for ty, q in TYPES.items():
            if ty in ('maxima', 'longa', '512th', '1024th'):
                continue
            for d in (0, 1, 2):
                o = only(ip, lambda: ip.call(w, [mkdur(type=ty, dots=d, quarterLength=num(Fraction(q) * dotf(d)))], {}))
                if o is None or o[0] != 'return' or not isinstance(o[1], str):
                    rep.unsure(f'tempo {ty}{d}', str(o))
                    continue
                ip.ctor_models['music21.duration.Duration'] = \
                    lambda ip_, c, a, k: mkdur(type=k.get('type', a[0] if a else None), dots=k.get('dots', 0))

                def th():
                    x = ip.deref(ip.call(r, [o[1]], {}))
                    return (ip.getattr(x, 'type'), ip.getattr(x, 'dots')) if x is not None else None
                judge(rep, ip, f'metronome unit {ty} dots={d} ({o[1]})', 'M21Convert.durationFromHumdrumTempoNoteName',
                      th, lambda v: v == (ty, d))
    rep.family('metronome-unit', 'the note name written for a metronome mark unit is read back as that note type and '
               'number of dots', tempo, 9)
    rep.use(ip)
