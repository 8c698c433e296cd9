"""C02: Humdrum signatures, clefs, transpositions, group symbols and barlines survive write -> read."""
from __future__ import annotations
from fractions import Fraction
from props.common import *

EXPLANATION = (
    'Constant-propagation abstract interpretation of the Humdrum writer function for each kind of signature with the '
    'token it builds handed to the reader function (through the token accessors), for every member of the finite '
    'vocabulary.  Oracles: the circle of fifths, the **kern clef/meter/barline spelling, and equality after the round '
    'trip.')

SHARPS = 'fcgdaeb'


def keystr(n):
    order = SHARPS if n >= 0 else SHARPS[::-1]
    sym = '#' if n >= 0 else '-'
    n = abs(n)
    return ''.join(order[i] + sym * ((n - 1 - i) // 7 + 1) for i in range(min(n, 7)))


def run(rep):
    ip = new_ip()
    M = lambda n: ip.fn('M21Convert', n)
    tok = lambda s: ip.instantiate(ip.cls('HumdrumToken'), [s], {})
    text = lambda t: ip.getattr(ip.deref(t), 'text')

    def key():
        w, r = M('keySigTokenFromM21KeySignature'), M('m21KeySignature')
        for n in range(-14, 15):
            ks = lambda: mk(ip, 'music21.key.KeySignature', sharps=n)
            judge(rep, ip, f'{n} sharps written', 'M21Convert.keySigTokenFromM21KeySignature',
                  lambda: text(ip.call(w, [ks()], {})), lambda v: v == f'*k[{keystr(n)}]')

            def back():
                t = ip.call(w, [ks()], {})
                k = ip.deref(ip.call(r, [t, None], {}))
                if k is None:
                    return None
                a = k.attrs.get('__named__', {})
                return a.get('sharps', k.attrs.get('sharps'))
            judge(rep, ip, f'{n} sharps read back', 'M21Convert.m21KeySignature', back, lambda v: v == n)
        # extra naturals are noise
        for s, n in (('*k[bnen]', 0), ('*k[bnenf#c#]', 2), ('*k[f#cn]', 1)):
            def rd():
                k = ip.deref(ip.call(r, [tok(s), None], {}))
                return None if k is None else k.attrs.get('__named__', {}).get('sharps')
            judge(rep, ip, f'{s} read', 'M21Convert.m21KeySignature', rd, lambda v: v == n)
    rep.family('key-signature', 'a key signature of n sharps/flats is written as the circle-of-fifths token and read '
               'back as n', key, 50)

    def oddkey():
        w, r = M('keySigTokenFromM21KeySignature'), M('m21KeySignature')
        for names in (('B-', 'F#'), ('C#',), ('E-', 'A-'), ('F#', 'G#'), ('B--', 'F##')):
            def wr():
                ps = AList([mk(ip, 'music21.pitch.Pitch', name=x, step=x[0]) for x in names])
                return text(ip.call(w, [mk(ip, 'music21.key.KeySignature', sharps=None, alteredPitches=ps)], {}))
            want = '*k[' + ''.join(names).lower() + ']'
            judge(rep, ip, f'non-standard {names} written', 'M21Convert.keySigTokenFromM21KeySignature', wr,
                  lambda v: v == want)

            def rd():
                k = ip.deref(ip.call(r, [tok(want), None], {}))
                if k is None:
                    return None
                sh = k.attrs.get('sharps', k.attrs.get('__named__', {}).get('sharps', 0))
                return (ip.deref(k.attrs.get('alteredPitches')), sh)
            judge(rep, ip, f'non-standard {want} read', 'M21Convert.m21KeySignature', rd,
                  lambda v: v is not None and isinstance(v[0], (list, tuple)) and tuple(v[0]) == names
                  and v[1] is None)
    rep.family('key-signature-nonstandard', 'a key signature with its own set of altered pitches is written and read '
               'with exactly those pitches', oddkey, 8)

    def keydes():
        w = M('keyDesignationTokenFromM21KeySignature')
        modes = ('major', 'minor', 'dorian', 'phrygian', 'lydian', 'mixolydian', 'aeolian', 'ionian', 'locrian')
        r = M('m21KeySignature')
        ip2 = ip
        old = dict(ip2.ctor_models)
        got = {}

        def keyctor(ip_, c, a, k):
            got['args'] = tuple(ip_.deref(x) for x in a)
            return mk(ip_, 'music21.key.Key', __key__=tuple(ip_.deref(x) for x in a), sharps=0)
        ip2.ctor_models['music21.key.Key'] = keyctor
        ip2.ctor_models['music21.key.KeySignature'] = lambda ip_, c, a, k: mk(ip_, 'music21.key.KeySignature', sharps=0)
        for tonic in ('C', 'F#', 'B-', 'E-', 'A', 'G'):
            for mode in modes:
                t = tonic.lower() if mode == 'minor' else tonic

                def rt():
                    kd = ip.call(w, [mk(ip, 'music21.key.Key', tonicPitchNameWithCase=t, mode=mode, sharps=0)], {})
                    k = ip.deref(ip.call(r, [tok('*k[]'), kd], {}))
                    return k.attrs.get('__key__')
                want = (t, None if mode in ('major', 'minor') else mode)
                judge(rep, ip, f'key {t} {mode}', 'M21Convert.keyDesignationTokenFromM21KeySignature', rt,
                      lambda v: v == want)
        ip2.ctor_models = old
        judge(rep, ip, 'a bare key signature has no key designation', 'M21Convert.keyDesignationTokenFromM21KeySignature',
              lambda: ip.call(w, [mk(ip, 'music21.key.KeySignature', sharps=1)], {}), lambda v: v is None)
    rep.family('key-designation', 'the tonic and mode of a key are read back from the key designation written for it',
               keydes, 50)

    def clef():
        ip.attr_models[('HumdrumToken', 'isKern')] = lambda ip_, o: True
        w, r = M('clefTokenFromM21Clef'), M('m21Clef')

        def cfs(ip_, a, k):
            s = ip_.deref(a[0])
            sh = ip_.deref(a[1]) if len(a) > 1 else k.get('octaveShift', 0)
            if s == 'percussion':
                return mk(ip_, 'music21.clef.PercussionClef', sign='percussion', line=None, octaveChange=0)
            return mk(ip_, 'music21.clef.Clef', sign=s[0], line=int(s[1]) if len(s) > 1 else None, octaveChange=sh)
        ip.models['music21.clef.clefFromString'] = cfs
        cases = [(s, l, o) for s in 'GFC' for l in range(1, 6) for o in (-2, -1, 0, 1, 2)]
        cases += [('percussion', l, 0) for l in (None, 1, 2, 3, 4, 5)]
        for s, l, o in cases:
            def rt():
                t = ip.call(w, [mk(ip, 'music21.clef.Clef', sign=s, line=l, octaveChange=o)], {})
                c = ip.deref(ip.call(r, [t], {}))
                return (c.attrs['sign'], c.attrs['line'], c.attrs['octaveChange'])
            judge(rep, ip, f'clef {s}{l} octave {o:+}', 'M21Convert.clefTokenFromM21Clef', rt, lambda v: v == (s, l, o))

        def nr():
            return ip.deref(ip.call(r, [tok('*clef-')], {})).cname
        judge(rep, ip, 'no clef', 'M21Convert.m21Clef', nr, lambda v: v == 'NoClef')
    rep.family('clef', 'shape, line and octave of every clef survive writing and reading', clef, 70)

    def meter():
        w, r = M('timeSigTokenFromM21TimeSignature'), M('m21TimeSignature')
        dur = ip.fn('Convert', 'timeSigToDuration')
        for n in list(range(1, 17)) + [18, 21, 24]:
            for d in (1, 2, 4, 8, 16, 32, 64):
                rs = f'{n}/{d}'

                def rt():
                    t = ip.call(w, [mk(ip, 'music21.meter.TimeSignature', ratioString=rs, numerator=n, denominator=d)], {})
                    x = ip.deref(ip.call(r, [t], {}))
                    return x.attrs['__args__'][0]
                judge(rep, ip, f'meter {rs}', 'M21Convert.m21TimeSignature', rt, lambda v: v == rs)
                judge(rep, ip, f'length of {rs}', 'Convert.timeSigToDuration',
                      lambda: ip.call(dur, [tok('*M' + rs)], {}), lambda v: frac(v) == Fraction(4 * n, d))
        ms = M('meterSigTokenFromM21TimeSignature')
        for sym in ('common', 'cut'):
            def rt():
                ts = mk(ip, 'music21.meter.TimeSignature', ratioString='4/4', symbol=sym)
                t = ip.call(ms, [ts], {})
                x = ip.deref(ip.call(r, [tok('*M4/4'), t], {}))
                return x.attrs.get('symbol')
            judge(rep, ip, f'meter symbol {sym}', 'M21Convert.meterSigTokenFromM21TimeSignature', rt, lambda v: v == sym)
        for sym in ('', 'single-number', 'normal'):
            judge(rep, ip, f'no meter symbol for {sym!r}', 'M21Convert.meterSigTokenFromM21TimeSignature',
                  lambda: ip.call(ms, [mk(ip, 'music21.meter.TimeSignature', ratioString='4/4', symbol=sym)], {}),
                  lambda v: v is None)
    rep.family('meter', 'every time signature (and common/cut symbol) is read back as written, with its exact bar length',
               meter, 100)

    def trans():
        w, r = M('humdrumTransposeStringFromM21Interval'), M('m21IntervalFromTranspose')
        ip.models['music21.interval.intervalFromGenericAndChromatic'] = \
            lambda ip_, a, k: ('IV', ip_.deref(a[0]), ip_.deref(a[1]))
        rd = ip.fn('Convert', 'transToDiatonicChromatic')
        for g in [x for x in range(-17, 18) if x not in (0, -1)]:
            for c in range(-26, 27, 1):
                steps = g - 1 if g > 0 else g + 1
                ideal = round(steps * 12 / 7)
                if abs(c - ideal) > 2:
                    continue

                def rt():
                    gen = mk(ip, 'music21.interval.GenericInterval', value=g)
                    s = ip.call(w, [mk(ip, 'music21.interval.Interval', generic=gen, semitones=c)], {})
                    return (ip.call(rd, [s], {}), ip.call(r, ['*ITr' + ip.deref(s)], {}))
                want = ((steps, c), None if (steps, c) == (0, 0) else ('IV', g, c))
                judge(rep, ip, f'transposition generic {g} semitones {c}',
                      'M21Convert.humdrumTransposeStringFromM21Interval', rt, lambda v: v == want)
    rep.family('transposition', 'an interval written as diatonic/chromatic steps is read back as the same interval',
               trans, 90)

    def revflow():
        # both directions reverse the interval exactly once (the two formats define transposition oppositely)
        w = M('instrumentTransposeTokenFromM21Instrument')
        rv = []

        def rev(ip_, o, a, k):
            rv.append(1)
            return mk(ip_, 'music21.interval.Interval', generic=mk(ip_, 'music21.interval.GenericInterval',
                      value=-o.attrs['generic'].attrs['value']), semitones=-o.attrs['semitones'])
        ip.method_models[('Interval', 'reverse')] = rev
        for g, c in ((-2, -2), (2, 2), (-6, -9), (5, 7), (8, 12), (-9, -14)):
            def wr():
                iv = mk(ip, 'music21.interval.Interval', generic=mk(ip, 'music21.interval.GenericInterval', value=g),
                        semitones=c)
                return text(ip.call(w, [mk(ip, 'music21.instrument.Instrument', transposition=iv)], {}))
            steps = -(g - 1 if g > 0 else g + 1)
            judge(rep, ip, f'instrument transposition {g},{c}', 'M21Convert.instrumentTransposeTokenFromM21Instrument',
                  wr, lambda v: v == f'*ITrd{steps}c{-c}')
            def acc():
                return ip.getattr(tok(f'*ITrd{steps}c{-c}'), 'instrumentTranspose')
            judge(rep, ip, f'token *ITrd{steps}c{-c}', 'HumdrumToken.instrumentTranspose', acc,
                  lambda v: v == f'd{steps}c{-c}')
        # the reader: every value stored in a .transposition attribute that derives from m21IntervalFromTranspose
        # passes through exactly one reverse()
        import ast
        n = 0
        for fn in repo().functions:
            src = {}
            for node in core.walk_fn(fn.node):
                if isinstance(node, (ast.Assign, ast.AnnAssign)) and node.value is not None:
                    tg = node.targets[0] if isinstance(node, ast.Assign) else node.target
                    if isinstance(tg, ast.Name):
                        src.setdefault(tg.id, []).append(node.value)

            def revs(e, d=0):
                """number of reverse() calls between the interval source and e, or None if unrelated"""
                if d > 8:
                    return None
                if isinstance(e, ast.Call):
                    if isinstance(e.func, ast.Attribute) and e.func.attr == 'reverse':
                        k = revs(e.func.value, d + 1)
                        return None if k is None else k + 1
                    nm = e.func.attr if isinstance(e.func, ast.Attribute) else getattr(e.func, 'id', '')
                    if nm == 'm21IntervalFromTranspose':
                        return 0
                    return None
                if isinstance(e, ast.Name):
                    ks = {revs(x, d + 1) for x in src.get(e.id, [])} - {None}
                    return ks.pop() if len(ks) == 1 else None
                return None
            for node in core.walk_fn(fn.node):
                if isinstance(node, ast.Assign) and isinstance(node.targets[0], ast.Attribute) \
                        and node.targets[0].attr == 'transposition':
                    k = revs(node.value)
                    if k is not None:
                        n += 1
                        rep.expect(k % 2 == 1, f'reader reverses the transposition in {fn.qual}', fn.where,
                                   f'the interval passes through {k} reverse() calls')
    rep.family('transposition-direction', 'instrument transpositions are reversed on export and on import (Humdrum '
               'and music21 define them oppositely)', revflow, 8)

    def bars():
        w = M('measureStyleFromM21Barline')
        r = M('m21BarlineFromHumdrumString')
        bt = ip.fn('HumGrid', 'createBarToken')
        ip.method_models[('GridMeasure', 'fermataStyle')] = lambda ip_, o, a, k: ip_.table('FermataStyle', 'NoFermata')
        ip.method_models[('GridMeasure', 'measureStyle')] = lambda ip_, o, a, k: o.attrs['__style__']
        plain = ('regular', 'dotted', 'heavy', 'double', 'final', 'heavy-light', 'heavy-heavy', 'tick', 'short', 'none')
        reps = ('regular', 'heavy', 'double', 'final', 'heavy-light', 'heavy-heavy')

        def write(bar, num):
            st = ip.call(w, [bar], {})
            gm = mk(ip, 'GridMeasure', measureNumberString=num, __style__=st)
            return ip.deref(ip.call(FuncRef(bt.node, bt.mod, bt.cls, mk(ip, 'HumGrid')), [gm, 0], {}))

        def read(s, side):
            b = ip.deref(ip.call(r, [s, side], {}))
            ty = b.attrs.get('type', b.attrs.get('__named__', {}).get('type'))
            return (b.cname, ty, b.attrs.get('direction', b.attrs.get('__named__', {}).get('direction')))
        for num in ('', '12', '7a'):
            for ty in plain:
                judge(rep, ip, f'barline {ty} measure {num!r}', 'M21Convert.m21BarlineFromHumdrumString',
                      lambda: read(write(mk(ip, 'music21.bar.Barline', type=ty), num), 'right'),
                      lambda v: v[:2] == ('Barline', ty))
            for ty in reps:
                judge(rep, ip, f'end repeat {ty} measure {num!r}', 'M21Convert.m21BarlineFromHumdrumString',
                      lambda: read(write(mk(ip, 'music21.bar.Repeat', type=ty, direction='end'), num), 'right'),
                      lambda v: v == ('Repeat', ty, 'end'))
                judge(rep, ip, f'start repeat {ty} measure {num!r}', 'M21Convert.m21BarlineFromHumdrumString',
                      lambda: read(write(mk(ip, 'music21.bar.Repeat', type=ty, direction='start'), num), 'left'),
                      lambda v: v == ('Repeat', ty, 'start'))
                judge(rep, ip, f'start repeat {ty} seen from the left, measure {num!r}',
                      'M21Convert.m21BarlineFromHumdrumString',
                      lambda: read(write(mk(ip, 'music21.bar.Repeat', type=ty, direction='start'), num), 'right')[0],
                      lambda v: v == 'Barline')
                judge(rep, ip, f'end repeat {ty} seen from the right, measure {num!r}',
                      'M21Convert.m21BarlineFromHumdrumString',
                      lambda: read(write(mk(ip, 'music21.bar.Repeat', type=ty, direction='end'), num), 'left')[0],
                      lambda v: v == 'Barline')
    rep.family('barline', 'the visual type and repeat direction of a barline are read back from the token written for '
               'it, with or without a measure number', bars, 90)

    def combos():
        f = M('combineTwoMeasureStyles')
        g = ip.fn('Convert', 'measureStyleToHumdrumBarlineStyleStr')
        r = M('m21BarlineFromHumdrumString')
        ms = ip.enum_members(ip.cls('MeasureStyle'))
        back = [m for n, m in ms.items() if n.startswith('RepeatBackward')]
        fwd = [m for n, m in ms.items() if n.startswith('RepeatForward')]
        plain = [m for n, m in ms.items() if not n.startswith('Repeat')]

        def side(s, sd):
            return ip.deref(ip.call(r, ['=4' + s, sd], {})).cname
        for b in back:
            for fw in fwd:
                def th():
                    s = ip.deref(ip.call(g, [ip.call(f, [fw, b], {})], {}))
                    return (side(s, 'right'), side(s, 'left'))
                judge(rep, ip, f'{b.name}+{fw.name}', 'M21Convert.combineTwoMeasureStyles', th,
                      lambda v: v == ('Repeat', 'Repeat'))
        for b in back:
            for p in plain:
                def th():
                    s = ip.deref(ip.call(g, [ip.call(f, [p, b], {})], {}))
                    return side(s, 'right')
                judge(rep, ip, f'{b.name}+{p.name}', 'M21Convert.combineTwoMeasureStyles', th, lambda v: v == 'Repeat')
        for p in plain:
            for fw in fwd:
                def th():
                    s = ip.deref(ip.call(g, [ip.call(f, [fw, p], {})], {}))
                    return side(s, 'left')
                judge(rep, ip, f'{p.name}+{fw.name}', 'M21Convert.combineTwoMeasureStyles', th, lambda v: v == 'Repeat')
            for q in plain:
                def th():
                    return ip.call(g, [ip.call(f, [q, p], {})], {})
                judge(rep, ip, f'{p.name}+{q.name}', 'M21Convert.combineTwoMeasureStyles', th,
                      lambda v: isinstance(v, str) and '|:' not in v and ':|' not in v and ':!' not in v and '!:' not in v)
    rep.family('barline-combine', 'the single token written where one measure ends and the next begins keeps an end '
               'repeat and a start repeat', combos, 100)

    def fermata():
        f = M('fermataStyleFromM21Barline')
        g = ip.fn('Convert', 'fermataStyleToHumdrumFermataStyleStr')
        for has in (False, True):
            def th():
                p = mk(ip, 'music21.expressions.Fermata', hasStyleInformation=False, type='upright') if has else None
                return ip.call(g, [ip.call(f, [mk(ip, 'music21.bar.Barline', type='regular', pause=p)], {})], {})
            judge(rep, ip, f'fermata on barline: {has}', 'M21Convert.fermataStyleFromM21Barline', th,
                  lambda v: (';' in v) == has)
        c = M('combineTwoFermataStyles')
        fs = ip.enum_members(ip.cls('FermataStyle'))
        for a in fs.values():
            for b in fs.values():
                def th():
                    return ip.call(g, [ip.call(c, [a, b], {})], {})
                judge(rep, ip, f'fermata {a.name}+{b.name}', 'M21Convert.combineTwoFermataStyles', th,
                      lambda v: (';' in v) == (a.name != 'NoFermata' or b.name != 'NoFermata'))
    rep.family('barline-fermata', 'a fermata on either side of a barline is written on the barline', fermata, 18)

    def groups():
        f = ip.table('M21Convert', 'm21GroupSymbolToHumdrumDecoGroupStyleStart')
        g = ip.table('M21Convert', 'm21GroupSymbolToHumdrumDecoGroupStyleStop')
        r = ip.table('M21Convert', 'humdrumDecoGroupStyleToM21GroupSymbol')
        pair = {'{': '}', '[': ']', '<': '>', '': ''}
        for sym, ch in f.d.items():
            rep.expect(g.d.get(sym) == pair.get(ch), f'closing sign for {sym}', 'M21Convert', f'{ch!r} closed by {g.d.get(sym)!r}')
            if ch:
                rep.expect(r.d.get(ch) == sym, f'group symbol {sym}', 'M21Convert', f'{ch!r} is read as {r.d.get(ch)!r}')
        for sym in ('brace', 'bracket', 'square'):
            rep.expect(sym in f.d and f.d[sym] != '', f'group symbol {sym} is written', 'M21Convert', 'not in the writer table')
    rep.family('group-symbol', 'a staff group symbol is opened and closed with matching signs and read back', groups, 9)
    rep.use(ip)
