"""C05: MEI signatures, clefs, barlines, transpositions and staff groups survive write -> read."""
from __future__ import annotations
from props.common import *
from props.meih import MEI, NS

EXPLANATION = (
    'Constant-propagation abstract interpretation of the MEI writer for key signatures, keys, clefs, time signatures, '
    'barlines and staff groups; the abstract elements it builds are handed to the MEI reader.  Oracle: what is read back '
    'equals what was written, and the attributes are those MEI prescribes.')

STEPS = 'CDEFGAB'
TONICS = [(s, a) for s in STEPS for a in (None, 'sharp', 'flat')]
MODES = {'major': 0, 'minor': -3, 'dorian': -2, 'phrygian': -4, 'lydian': 1, 'mixolydian': -1, 'aeolian': -3,
         'ionian': 0, 'locrian': -5}
FIFTH = {'F': -1, 'C': 0, 'G': 1, 'D': 2, 'A': 3, 'E': 4, 'B': 5}


def sharps_of(step, acc, mode):
    return FIFTH[step] + {None: 0, 'sharp': 7, 'flat': -7}[acc] + MODES[mode]


def run(rep):
    ip = new_ip(max_steps=300000)
    M = MEI(ip)
    M.install()
    d = ip.deref
    SB = lambda: mk(ip, 'music21.spanner.SpannerBundle')

    def styled(cname, hide=False, **kw):
        o = mk(ip, cname, **kw)
        o.attrs['style'] = M.nstyle('Style', hideObjectOnPrint=hide)
        o.attrs['hasStyleInformation'] = hide
        o.absent = {'placement'}
        return o

    def wr(name, o):
        tb = M.tb()
        M.w(name, o, SB(), tb)
        return M.built(tb)

    # ------------------------------------------------------------------ keys
    def keyctor(ip_, c, a, k):
        tonic = d(k.get('tonic', a[0] if a else 'C'))
        mode = d(k.get('mode', a[1] if len(a) > 1 else 'major'))
        o = styled('music21.key.Key', mode=mode)
        if isinstance(tonic, str) and isinstance(mode, str) and tonic[0].upper() in FIFTH and mode in MODES:
            acc = {'': None, '#': 'sharp', '-': 'flat', 'n': None}.get(tonic[1:], 'other')
            o.attrs['tonic'] = mk(ip_, 'music21.pitch.Pitch', step=tonic[0].upper(),
                                  accidental=None if acc is None else M.accid(acc if acc != 'other' else tonic[1:]))
            if acc != 'other':
                o.attrs['sharps'] = sharps_of(tonic[0].upper(), acc, mode)
        return o

    def ksctor(ip_, c, a, k):
        return styled('music21.key.KeySignature', sharps=d(k.get('sharps', a[0] if a else 0)))
    ip.ctor_models['music21.key.Key'] = keyctor
    ip.ctor_models['music21.key.KeySignature'] = ksctor

    def askey(ip_, o, a, k):
        mode = d(k.get('mode', a[0] if a else 'major'))
        n = styled('music21.key.Key', mode=mode, sharps=o.attrs['sharps'], tonic='derived')
        return n
    ip.method_models[('KeySignature', 'asKey')] = askey

    def keysigs():
        for s in range(-12, 13):
            for hide in (False, True):
                for where in ('keySigFromElementInLayer', 'keySigFromElementInStaffDef'):
                    def rt():
                        e = wr('m21KeySigToMei', styled('music21.key.KeySignature', hide, sharps=s))
                        k = d(M.r(M.shared_reader(), where, e))
                        return (M.tag(e), M.attrs(e).get('sig'), d(k.attrs['sharps']), k.cname,
                                d(d(k.attrs['style']).attrs['hideObjectOnPrint']))
                    sig = '0' if s == 0 else f'{abs(s)}{"s" if s > 0 else "f"}'
                    judge(rep, ip, f'key signature {s} hidden={hide} {where}', 'M21ObjectConvert.m21KeySigToMei / MeiReader._keySigFromAttrs',
                          rt, lambda v: v == ('keySig', sig, s, 'KeySignature', hide))
    rep.family('key-signature', 'every key signature MEI can express, hidden or not, survives', keysigs, 80)

    def keys():
        for step, acc in TONICS:
            for mode in MODES:
                s = sharps_of(step, acc, mode)
                if not -12 <= s <= 12:
                    continue

                def rt():
                    ac = None if acc is None else M.accid(acc)
                    k0 = styled('music21.key.Key', sharps=s, mode=mode,
                                tonic=mk(ip, 'music21.pitch.Pitch', step=step, accidental=ac))
                    e = wr('m21KeySigToMei', k0)
                    k = d(M.r(M.shared_reader(), 'keySigFromElementInLayer', e))
                    t = d(k.attrs['tonic'])
                    if t == 'derived':
                        return 'derived', M.attrs(e)
                    a = d(t.attrs['accidental'])
                    return d(t.attrs['step']), None if a is None else d(a.attrs['name']), d(k.attrs['mode']), d(k.attrs['sharps'])
                judge(rep, ip, f'key {step} {acc} {mode}', 'M21ObjectConvert.m21KeySigToMei / MeiReader._keySigFromAttrs', rt,
                      lambda v: v == (step, acc, mode, s))
    rep.family('key', 'every key keeps its tonic, mode and number of accidentals', keys, 120)

    def keys_attr():
        for ver, sigat, vis in (('5', 'keysig', 'keysig.visible'), ('4', 'key.sig', 'keysig.show')):
            for s in range(-12, 13):
                sig = '0' if s == 0 else f'{abs(s)}{"s" if s > 0 else "f"}'
                for show in (None, 'true', 'false'):
                    def th():
                        at = {sigat: sig}
                        if show:
                            at[vis] = show
                        k = d(M.r(M.shared_reader(meiVersion=ver), '_keySigFromAttrs', M.E('scoreDef', at), prefix='key.'))
                        return d(k.attrs['sharps']), d(d(k.attrs['style']).attrs['hideObjectOnPrint'])
                    judge(rep, ip, f'scoreDef {sigat}={sig} {vis}={show} (MEI {ver})', 'MeiReader._keySigFromAttrs', th,
                          lambda v: v == (s, show == 'false'))
        M.shared_reader(meiVersion='5.0+CMN')
    rep.family('key-attributes', 'key signatures given as attributes of a definition are read in both MEI versions', keys_attr, 100)

    # ------------------------------------------------------------------ clefs
    ip.models['music21.clef.clefFromString'] = lambda ip_, a, k: styled(
        'music21.clef.Clef', sign=d(a[0])[:-1] if d(a[0])[-1:].isdigit() else d(a[0]),
        line=int(d(a[0])[-1]) if d(a[0])[-1:].isdigit() else None,
        octaveChange=d(a[1] if len(a) > 1 else k.get('octaveShift', 0)))
    ip.ctor_models['music21.clef.PercussionClef'] = lambda ip_, c, a, k: styled('music21.clef.Clef', sign='percussion', line=None, octaveChange=0)
    ip.ctor_models['music21.clef.TabClef'] = lambda ip_, c, a, k: styled('music21.clef.Clef', sign='TAB', line=5, octaveChange=0)

    def clefs():
        cases = [(s, l, o) for s in 'GFC' for l in range(1, 6) for o in (-3, -2, -1, 0, 1, 2, 3)]
        cases += [('percussion', None, 0), ('TAB', 5, 0)]
        for sign, line, oc in cases:
            for hide in (False, True):
                for where in ('clefFromElementInLayer', 'clefFromElementInStaffDef'):
                    def rt():
                        e = wr('m21ClefToMei', styled('music21.clef.Clef', hide, sign=sign, line=line, octaveChange=oc))
                        a = M.attrs(e)
                        c = d(M.r(M.shared_reader(), where, e))
                        return (a.get('shape'), a.get('dis'), a.get('dis.place'), d(c.attrs['sign']), d(c.attrs['line']),
                                d(c.attrs['octaveChange']), d(d(c.attrs['style']).attrs['hideObjectOnPrint']))
                    sh = 'perc' if sign == 'percussion' else sign
                    dis = {0: None, 1: '8', 2: '15', 3: '22'}[abs(oc)]
                    pl = None if not oc else 'above' if oc > 0 else 'below'
                    judge(rep, ip, f'clef {sign}{line} octave {oc} hidden={hide} {where}',
                          'M21ObjectConvert.m21ClefToMei / MeiReader._clefFromElement', rt,
                          lambda v: v == (sh, dis, pl, sign, line, oc, hide))
        for dis, n in (('8', 1), ('15', 2), ('22', 3)):
            for pl, sg in (('above', 1), ('below', -1)):
                for sh, ln in (('G', '2'), ('F', '4'), ('C', '3')):
                    def th():
                        rd = M.reader(staffNumberForDef='1')
                        e = M.E('staffDef', {'n': '1', 'lines': '5', 'clef.shape': sh, 'clef.line': ln, 'clef.dis': dis,
                                             'clef.dis.place': pl})
                        c = d(d(M.r(rd, 'staffDefFromElement', e)).d['clef'])
                        return d(c.attrs['sign']), d(c.attrs['line']), d(c.attrs['octaveChange'])
                    judge(rep, ip, f'staffDef clef attributes {sh}{ln} {dis} {pl}', 'MeiReader.staffDefFromElement', th,
                          lambda v: v == (sh, int(ln), n * sg))
    rep.family('clef', 'every clef shape, line and octave mark, hidden or not, survives', clefs, 300)

    # ------------------------------------------------------------------ meters
    def tsctor(ip_, c, a, k):
        v = d(a[0]) if a else d(k.get('value', '4/4'))
        if v == 'cut':
            n, q, sym = 2, 2, 'cut'
        elif v == 'common':
            n, q, sym = 4, 4, 'common'
        elif isinstance(v, str) and '/' in v:
            n, q = (int(x) for x in v.split('/'))
            sym = ''
        else:
            return styled('music21.meter.base.TimeSignature')
        return styled('music21.meter.base.TimeSignature', numerator=n, denominator=q, symbol=sym)
    ip.ctor_models['TimeSignature'] = tsctor

    def meters():
        cases = [(n, q, '') for n in range(1, 20) for q in (1, 2, 4, 8, 16, 32, 64)] + [(4, 4, 'common'), (2, 2, 'cut')]
        for n, q, sym in cases:
            for hide in (False, True):
                def rt():
                    e = wr('m21TimeSigToMei', styled('music21.meter.base.TimeSignature', hide, numerator=n, denominator=q, symbol=sym))
                    a = M.attrs(e)
                    t = d(M.r(M.shared_reader(), 'timeSigFromElement', e))
                    return (a.get('count'), a.get('unit'), a.get('sym'), d(t.attrs['numerator']), d(t.attrs['denominator']),
                            d(t.attrs['symbol']), d(d(t.attrs['style']).attrs['hideObjectOnPrint']))
                judge(rep, ip, f'meter {n}/{q} {sym} hidden={hide}', 'M21ObjectConvert.m21TimeSigToMei / MeiReader.timeSigFromElement',
                      rt, lambda v: v == (str(n), str(q), sym or None, n, q, sym, hide))
        for sym, (n, q) in (('common', (4, 4)), ('cut', (2, 2))):
            for with_count in (True, False):
                def th():
                    at = {'meter.sym': sym}
                    if with_count:
                        at.update({'meter.count': str(n), 'meter.unit': str(q)})
                    t = d(M.r(M.shared_reader(), '_timeSigFromAttrs', M.E('scoreDef', at), prefix='meter.'))
                    return d(t.attrs['numerator']), d(t.attrs['denominator']), d(t.attrs['symbol'])
                judge(rep, ip, f'meter attributes sym={sym} count given={with_count}', 'MeiReader._timeSigFromAttrs', th,
                      lambda v: v == (n, q, sym))
    rep.family('meter', 'every simple meter and the common and cut symbols survive, hidden or not', meters, 250)

    # ------------------------------------------------------------------ barlines
    TYPES = {'regular': '', 'heavy': 'heavy', 'heavy-heavy': 'dblheavy', 'dotted': 'dotted', 'dashed': 'dashed', 'double': 'dbl',
             'final': 'end', 'none': 'invis', 'start': 'rptstart', 'end': 'rptend'}
    ip.ctor_models['music21.bar.Barline'] = lambda ip_, c, a, k: mk(ip_, 'music21.bar.Barline', type=d(a[0] if a else k.get('type')) or 'regular', pause=None)
    ip.ctor_models['music21.bar.Repeat'] = lambda ip_, c, a, k: mk(ip_, 'music21.bar.Repeat', direction=d(a[0] if a else k.get('direction')), pause=None)

    def bar(t):
        if t is None:
            return None
        if t in ('start', 'end'):
            return mk(ip, 'music21.bar.Repeat', direction=t, type='final', pause=None)
        return mk(ip, 'music21.bar.Barline', type=t, pause=None)

    def B(b):
        b = d(b)
        if b is None:
            return None
        return d(b.attrs['direction']) if b.cname == 'Repeat' else d(b.attrs['type'])
    model(ip, 'M21Utilities', 'extendCustomM21Attributes', lambda ip_, a, k: None)

    def measure_bars(at):
        st = ADict({'1': mk(ip, 'music21.stream.Measure', leftBarline=None, rightBarline=None),
                    '2': mk(ip, 'music21.stream.Measure', leftBarline=None, rightBarline=None)})
        out = d(M.r(M.shared_reader(), '_makeBarlines', M.E('measure', at), st))
        nl = out.d.get('next @left')
        return (tuple(B(d(out.d[n]).attrs['leftBarline']) for n in '12'), tuple(B(d(out.d[n]).attrs['rightBarline']) for n in '12'),
                B(nl) if nl is not None else None)

    def barlines():
        for t in TYPES:
            def left():
                s = d(M.w('m21BarlineToMeiMeasureBarlineAttr', bar(t), ADict({})))
                return (s,) + measure_bars({'left': s} if s else {})
            want = (TYPES[t], (t,) * 2 if t != 'regular' else (None,) * 2)
            judge(rep, ip, f'left barline {t}', 'M21ObjectConvert.m21BarlineToMeiMeasureBarlineAttr / MeiReader._makeBarlines',
                  left, lambda v: v[:2] == want)
            for t2 in (None,) + tuple(TYPES):
                def right():
                    s = d(M.w('m21BarlinesToMeiMeasureBarlineAttr', bar(t), bar(t2), ADict({})))
                    return (s,) + measure_bars({'right': s} if s else {})

                def ok(v):
                    s, l, r, nxt = v
                    pair = {t, t2}
                    if 'none' in pair:
                        return True          # an invisible barline hides everything, by design
                    starts, ends = 'start' in pair, 'end' in pair
                    if ends and r != ('end', 'end'):
                        return False
                    if starts and nxt != 'start':
                        return False
                    if not ends and r[0] == 'end' or not starts and nxt == 'start':
                        return False
                    if not starts and not ends:
                        cands = {x for x in pair if x not in (None, 'regular')} or {'regular'}
                        return r[0] == r[1] and r[0] in cands
                    return True
                judge(rep, ip, f'right barline {t} with next left {t2}',
                      'M21ObjectConvert.m21BarlinesToMeiMeasureBarlineAttr / MeiReader._makeBarlines', right, ok)

            def elem():
                b = bar(t)
                b.absent = {'mei_emitted_as_measure_attr'}
                e = wr('m21BarlineToMei', b)
                return M.tag(e), B(M.r(M.shared_reader(), 'barLineFromElement', e))
            judge(rep, ip, f'barLine element {t}', 'M21ObjectConvert.m21BarlineToMei / MeiReader.barLineFromElement', elem,
                  lambda v: v == ('barLine', t))
        for a, (r, nl) in {'rptboth': ('end', 'start'), 'rptend': ('end', None), 'rptstart': ('regular', 'start')}.items():
            judge(rep, ip, f'right={a}', 'MeiReader._makeBarlines', lambda: measure_bars({'right': a}),
                  lambda v: v[1] == (r, r) and v[2] == nl)
        judge(rep, ip, 'no barline attributes', 'MeiReader._makeBarlines', lambda: measure_bars({}),
              lambda v: v == ((None, None), ('regular', 'regular'), None))
    rep.family('barline', 'every barline MEI can express survives at either side of a measure and inside it; combined barlines '
               'keep every repeat', barlines, 120)

    def combine():
        vals = sorted(set(TYPES.values()) | {'rptboth'})
        for a in vals:
            for b in vals:
                x = only(ip, lambda: M.w('meiMeasureBarlineAttrCombine', a, b))
                y = only(ip, lambda: M.w('meiMeasureBarlineAttrCombine', b, a))
                if x is None or y is None:
                    rep.unsure(f'combine {a} {b}')
                    continue
                def has(v, w):
                    return w in v or 'rptboth' in v
                v = x[1]
                ok = x == y and v in vals and (v in (a, b) or v == 'rptboth')
                if 'invis' not in (a, b):
                    for w in ('rptstart', 'rptend'):
                        ok = ok and has((a, b), w) == (v in (w, 'rptboth'))
                rep.expect(ok, f'combine {a!r} {b!r}', 'M21ObjectConvert.meiMeasureBarlineAttrCombine', f'{x} / {y}')
    rep.family('barline-combine', 'combining the barlines of neighbouring measures is symmetric and keeps every repeat', combine, 80)

    # ------------------------------------------------------------------ transposition
    def transp():
        ip.ctor_models['music21.interval.GenericInterval'] = lambda ip_, c, a, k: mk(ip_, 'music21.interval.GenericInterval', value=d(a[0]))
        ip.ctor_models['music21.interval.ChromaticInterval'] = lambda ip_, c, a, k: mk(ip_, 'music21.interval.ChromaticInterval', semitones=d(a[0]))
        ip.models['music21.interval.intervalFromGenericAndChromatic'] = lambda ip_, a, k: (
            d(d(a[0]).attrs['value']), d(d(a[1]).attrs['semitones']))
        for di, se in ((-1, -2), (-2, -3), (-4, -7), (-5, -9), (1, 2), (2, 3), (7, 12), (-7, -12), (-8, -14), (-12, -21),
                       (14, 24), (-14, -24), (4, 7), (5, 9), (0, 0), (3, 5), (-3, -5), (1, 1), (-1, -1), (2, 4), (-2, -4), (-6, -10),
                       (-9, -15), (8, 14), (-3, -6), (6, 11), (9, 15)):
            for spell in (str, lambda x: f'{x}.0'):
                judge(rep, ip, f'trans.diat={spell(di)} trans.semi={spell(se)}', 'MeiReader._transpositionFromAttrs',
                      lambda: M.r(M.shared_reader(), '_transpositionFromAttrs', M.E('staffDef', {'trans.diat': spell(di), 'trans.semi': spell(se)})),
                      lambda v: v == (di + 1 if di >= 0 else di - 1, se))
        for g in ('music21.interval.GenericInterval', 'music21.interval.ChromaticInterval'):
            ip.ctor_models.pop(g)
    rep.family('transposition', 'the transposition of a staff is read as the interval its attributes name', transp, 40)

    # ------------------------------------------------------------------ staff groups
    def groups():
        model(ip, 'MeiReader', '_instrumentFromStaffDefOrStaffGrp', lambda ip_, a, k: None)
        made = []
        model(ip, 'MeiScore', 'makeStaffDefElement', lambda ip_, a, k: (
            ip_.call(ip_.getattr(a[3], 'start'), ['staffDef', ADict({'n': str(d(a[2]))})], {}),
            ip_.call(ip_.getattr(a[3], 'end'), ['staffDef'], {}))[1])

        def sgt(sym, bt, nums, *kids):
            return mk(ip, 'M21StaffGroupTree', staffGroup=mk(ip, 'music21.layout.StaffGroup', name='', abbreviation='', symbol=sym, barTogether=bt),
                      staffNums=AList(list(nums)), children=AList(list(kids)), lowestStaffNumber=min(nums), numStaves=len(nums))

        def read(t):
            t = d(t)
            return (d(t.attrs['symbol']), d(t.attrs['barTogether']), tuple(d(x) for x in d(t.attrs['staffIds']).v),
                    tuple(read(c) for c in d(t.attrs['children']).v))

        def rt(tree, n):
            ms = mk(ip, 'MeiScore', m21PartsForStaffNumbers=ADict({i: mk(ip, 'music21.stream.Part') for i in range(1, n + 1)}))
            tb = M.tb()
            f = ip.fn('MeiScore', 'makeStaffGrpElement')
            ip.call(FuncRef(f.node, f.mod, f.cls, ms), [tree, tb], {})
            return read(M.r(M.shared_reader(), 'staffGroupDescriptionTreeFromStaffGrp', M.built(tb), None))
        SY = {'brace': 'brace', 'bracket': 'bracket', 'square': 'square', 'line': 'line', None: 'none'}
        for sym in SY:
            for bt in (True, False, 'Mensurstrich'):
                judge(rep, ip, f'staff group {sym} barTogether={bt}', 'MeiScore.makeStaffGrpElement / MeiReader.staffGroupDescriptionTreeFromStaffGrp',
                      lambda: rt(sgt(sym, bt, [1, 2]), 2), lambda v: v == (SY[sym], bt, ('1', '2'), ()))
        for inner in ([1, 2], [2, 3], [3, 4], [2], [4]):
            judge(rep, ip, f'group {inner} inside a group of four', 'MeiScore.makeStaffGrpElement',
                  lambda: rt(sgt('bracket', True, [1, 2, 3, 4], sgt('brace', False, inner)), 4),
                  lambda v: v == ('bracket', True, tuple('1234'), (('brace', False, tuple(map(str, inner)), ()),)))
        judge(rep, ip, 'two inner groups', 'MeiScore.makeStaffGrpElement',
              lambda: rt(sgt('bracket', True, [1, 2, 3, 4, 5], sgt('brace', False, [1, 2]), sgt('square', True, [4, 5])), 5),
              lambda v: v == ('bracket', True, tuple('12345'), (('brace', False, ('1', '2'), ()), ('square', True, ('4', '5'), ()))))
    rep.family('staff-group', 'the symbol, the barline grouping, the nesting and the order of staff groups survive', groups, 18)
    rep.use(ip)
