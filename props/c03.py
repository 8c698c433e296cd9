"""C03: Humdrum markings attached to notes survive write -> read."""
from __future__ import annotations
from props.common import *

EXPLANATION = (
    'Constant-propagation abstract interpretation of the Humdrum writer for every kind of marking (and of the whole-note '
    'and whole-chord token writers for combinations), with the token text and layout comments it builds handed to the '
    'reader functions.  Oracle: the marking read back equals the marking written.')

ARTICS = {'Staccato': "'", 'Staccatissimo': '`', 'Tenuto': '~', 'StrongAccent': '^^', 'Accent': '^', 'BreathMark': ',',
          'HarmonicNatural': None, 'Harmonic': 'o', 'UpBow': 'v', 'DownBow': 'u', 'Pizzicato': '"'}


class H:
    """writer and reader harness on abstract objects"""

    def __init__(self, ip):
        self.ip = ip
        ip.ctor_models['music21.interval.Interval'] = self._interval
        ip.attr_models[('HumdrumToken', 'isKern')] = lambda ip_, o: True
        ip.attr_models[('HumdrumToken', 'lineIndex')] = lambda ip_, o: o.attrs.get('__line__', -1)
        model(ip, 'M21Utilities', 'isIn', lambda ip_, a, k: True)

    def _interval(self, ip, c, a, k):
        o = ip.deref(a[1]) if len(a) > 1 else None
        s = o.attrs.get('__semi__', Unk('semi')) if isinstance(o, Obj) else Unk('semi')
        return mk(ip, 'music21.interval.Interval', chromatic=mk(ip, 'music21.interval.ChromaticInterval', semitones=s),
                  semitones=s)

    def M(self, n):
        return self.ip.fn('M21Convert', n)

    def call(self, n, *a):
        return self.ip.call(self.M(n), list(a), {})

    def tok(self, s, layouts=()):
        ip = self.ip
        t = ip.instantiate(ip.cls('HumdrumToken'), [s], {})
        ip.deref(t).attrs['_dataTypeTokenCached'] = None
        for i, l in enumerate(layouts):
            lt = ip.instantiate(ip.cls('HumdrumToken'), [l], {})
            f = ip.fn('HumdrumToken', 'storeParameterSet')
            ip.call(FuncRef(f.node, f.mod, f.cls, lt), [], {})
            f = ip.fn('HumdrumToken', 'addLinkedParameterSet')
            ip.deref(lt).attrs['__line__'] = i
            ip.call(FuncRef(f.node, f.mod, f.cls, t), [lt], {})
        return t

    def file(self):
        ip = self.ip
        hf = mk(ip, 'HumdrumFile')
        sg = mk(ip, 'HumSignifiers') if self._has('HumSignifiers') else Obj(ip.cls('HumdrumFile'), {})
        sg.attrs.update(above='>', below='<')
        hf.attrs['_signifiers'] = sg
        ss = mk(ip, 'StaffStateVariables', noteHead='', currentM21KeySig=None)
        hf.attrs['_staffStates'] = AList([ss])
        return hf

    def _has(self, n):
        try:
            self.ip.cls(n)
            return True
        except AnalysisError:
            return False

    def meth(self, hf, name, *a):
        f = self.ip.fn('HumdrumFile', name)
        return self.ip.call(FuncRef(f.node, f.mod, f.cls, hf), list(a), {})

    def note(self, **kw):
        d = dict(articulations=AList([]), expressions=AList([]), pitches=(), tie=None, notehead='normal',
                 noteheadFill=None, stemDirection='unspecified', hasStyleInformation=False)
        d.update(kw)
        n = mk(self.ip, 'music21.note.Note', **d)
        return n


def cname(o):
    return o.cname if isinstance(o, Obj) else None


def named(o, k, default=None):
    if k in o.attrs:
        return o.attrs[k]
    return o.attrs.get('__named__', {}).get(k, default)


def run(rep):
    ip = new_ip(max_steps=200000)
    h = H(ip)
    d = ip.deref

    # ------------------------------------------------------------------ articulations
    def artics():
        wt = ip.table('M21Convert', 'm21ArticulationClassNameToHumdrumArticulationString').d
        names = [n for n in wt]
        for n in ('Staccato', 'Staccatissimo', 'Tenuto', 'StrongAccent', 'Accent', 'BreathMark', 'UpBow', 'DownBow',
                  'Pizzicato'):
            rep.expect(n in wt, f'{n} has a sign', 'M21Convert', 'not in the writer table')
        mkart = lambda n, p: mk(ip, 'music21.articulations.' + n, classes=(n,), placement=p)

        def rt(lst, extra=('', '')):
            s = d(h.call('_getHumdrumStringFromM21Articulations', AList([mkart(n, p) for n, p in lst]), None))
            out = h.call('m21Articulations', '4' + extra[0] + 'c' + s + extra[1], '>', '<')
            return sorted((cname(d(a)), d(a).attrs.get('placement') or '') for a in d(out).v)
        for n in names:
            for p in (None, 'above', 'below'):
                for ex in (('', ''), ('', '/L'), ('.', 'yy'), ('', '\\J)'), ('', ';<')):
                    want = [(n, p or '')]
                    judge(rep, ip, f'articulation {n} {p} {ex}', 'M21Convert.m21Articulations', lambda: rt([(n, p)], ex),
                          lambda v: v == want)
            for n2 in names:
                if n2 == n or {n, n2} == {'Accent', 'StrongAccent'} or {n, n2} == {'Staccato', 'Staccatissimo'}:
                    continue
                for p, p2 in ((None, None), ('above', None), (None, 'below'), ('above', 'below')):
                    want = sorted([(n, p or ''), (n2, p2 or '')])
                    judge(rep, ip, f'articulations {n} {p} + {n2} {p2}', 'M21Convert.m21Articulations',
                          lambda: rt([(n, p), (n2, p2)]), lambda v: v == want)
        for p in (None, 'above', 'below'):
            for n in ('Fingering', 'Doit', 'Spiccato', 'Stress'):
                def th():
                    return h.call('_getHumdrumStringFromM21Articulations', AList([mkart(n, p)]), None)
                judge(rep, ip, f'articulation {n} {p}, which Humdrum lacks, writes nothing',
                      'M21Convert._getHumdrumStringFromM21Articulations', th,
                      lambda v: v == '' or (len(v) > 1 and v[0] not in '<>'))
    rep.family('articulation', 'every articulation (alone, in pairs, placed above or below, followed by other signs) is '
               'read back with its placement', artics, 300)

    # ------------------------------------------------------------------ ties
    def ties():
        hfa = h.file
        for ty in ('start', 'continue', 'stop'):
            for st in ('normal', 'hidden', 'dotted', 'dashed'):
                for pl in (None, 'above', 'below'):
                    def wr():
                        t = mk(ip, 'music21.tie.Tie', type=ty, style=st, placement=pl)
                        return h.call('_getTieStartStopAndLayoutsFromM21GeneralNote', h.note(tie=t))

                    def rt():
                        a, b, l = d(wr())
                        a, b = d(a), d(b)
                        s = a + '4c' + b
                        kind = ('start' if '[' in s else '') + ('stop' if ']' in s else '') + ('continue' if '_' in s else '')
                        if ty == 'stop':
                            return (kind, 'normal', None)
                        tk = h.tok(s, [d(x) for x in d(l).v])
                        tie = mk(ip, 'music21.tie.Tie', type=ty, style='normal', placement=None)
                        h.meth(hfa(), '_addTieStyle', tie, tk, s, 0)
                        return (kind, tie.attrs['style'], tie.attrs['placement'])
                    want = (ty, st if ty != 'stop' else 'normal', None if st == 'hidden' or ty == 'stop' else pl)
                    judge(rep, ip, f'tie {ty} {st} {pl}', 'M21Convert._getTieStartStopAndLayoutsFromM21GeneralNote', rt,
                          lambda v: v == want)
        judge(rep, ip, 'no tie', 'M21Convert._getTieStartStopAndLayoutsFromM21GeneralNote',
              lambda: h.call('_getTieStartStopAndLayoutsFromM21GeneralNote', h.note()), lambda v: v == ('', '', []))
    rep.family('tie', 'start, continuation and end of a tie, with its style and placement, are read back', ties, 36)

    # ------------------------------------------------------------------ noteheads, stems, invisibility
    def heads():
        cases = [(None, 'normal'), (None, 'diamond'), (None, 'cross'), (True, 'normal'), (False, 'normal')]
        for fill, head in cases:
            for sub, pre in ((-1, 0), (0, 0), (0, 1), (1, 1)):
                def rt():
                    l = d(h.call('_getNoteHeadLayoutsFromM21GeneralNote', h.note(notehead=head, noteheadFill=fill)))
                    ls = [d(x) for x in l.v]
                    if pre:
                        ls = [d(h.call('_addNoteNumberToLayout', x, sub + 1)) for x in ls]
                        other = '!LO:N:n=' + str(2 - sub) + ':head=plus'
                        ls = [other] + ls
                    tk = h.tok('4c 4e', ls)
                    n = h.note()
                    h.meth(h.file(), '_setNoteHead', n, tk, sub, 0)
                    return (n.attrs['noteheadFill'], n.attrs['notehead'])
                judge(rep, ip, f'notehead {head} fill {fill} note {sub} layouts {pre}', 'HumdrumFile._setNoteHead', rt,
                      lambda v: v == (fill, head))
    rep.family('notehead', 'the notehead shape or fill of each note (of a chord) is read back', heads, 15)

    def stems():
        for sd, ch in (('up', '/'), ('down', '\\')):
            def rt():
                s = d(h.call('_getHumdrumStemDirStringFromM21GeneralNote', h.note(stemDirection=sd)))
                n = h.note()
                h.ip.call(ip.fn('HumdrumFile', '_setStemDirection'), [n, h.tok('4c' + s), '4c' + s], {})
                return n.attrs['stemDirection']
            judge(rep, ip, f'stem {sd}', 'HumdrumFile._setStemDirection', rt, lambda v: v == sd)
        for sd in ('unspecified', 'noStem', 'double'):
            judge(rep, ip, f'stem {sd}', 'M21Convert._getHumdrumStemDirStringFromM21GeneralNote',
                  lambda: h.call('_getHumdrumStemDirStringFromM21GeneralNote', h.note(stemDirection=sd)),
                  lambda v: '/' not in v and '\\' not in v)
        for hide in (True, False):
            def inv():
                n = h.note(hasStyleInformation=True, style=mk(ip, 'music21.style.NoteStyle', hideObjectOnPrint=hide),
                           classes=('Note',))
                return h.call('_getKernInvisibilityFromGeneralNote', n)
            judge(rep, ip, f'hidden {hide}', 'M21Convert._getKernInvisibilityFromGeneralNote', inv,
                  lambda v: v == ('yy' if hide else ''))
    rep.family('stem', 'explicit stem directions are read back, hidden notes are written hidden', stems, 7)

    # ------------------------------------------------------------------ beams
    def beams():
        kinds = [('start', None), ('continue', None), ('stop', None), ('partial', 'left'), ('partial', 'right')]
        import itertools
        for n in (0, 1, 2, 3):
            for combo in itertools.product(kinds, repeat=n):
                def wr():
                    return h.call('_getHumdrumBeamStringFromM21Beams', AList(
                        [mk(ip, 'music21.beam.Beam', type=ty, direction=dr) for ty, dr in combo]))

                def ok(v):
                    return isinstance(v, str) and (v.count('L'), v.count('J'), v.count('k'), v.count('K')) == (
                        combo.count(kinds[0]), combo.count(kinds[2]), combo.count(kinds[3]), combo.count(kinds[4])) \
                        and len(v) == n - combo.count(kinds[1])
                judge(rep, ip, f'beams {combo}', 'M21Convert._getHumdrumBeamStringFromM21Beams', wr, ok)
    rep.family('beam', 'one L, J, k or K per beam that starts, stops or is a hook', beams, 100)

    # ------------------------------------------------------------------ ornaments
    ACC = {None: None, 'sharp': 1, 'flat': -1, 'double-sharp': 2, 'double-flat': -2}

    def orn_pitch(semi, acc, shown):
        a = None
        if acc is not None:
            a = mk(ip, 'music21.pitch.Accidental', name=acc, displayStatus=shown, alter=float(ACC[acc]))
        return mk(ip, 'music21.pitch.Pitch', accidental=a, __semi__=semi)

    def accnum(o, key='accidental'):
        a = d(named(o, key))
        if a is None:
            return None
        if isinstance(a, Obj):
            args = a.attrs.get('__args__')
            return (args[0] if args else a.attrs.get('alter'), a.attrs.get('displayStatus'))
        return Unk('acc')

    def write_orn(cls, pitches=True, **kw):
        main = mk(ip, 'music21.pitch.Pitch')
        orn = mk(ip, 'music21.expressions.' + cls, ornamentalPitches=('x',), **kw)
        n = h.note(pitches=(main,) if pitches else ())
        s, l = d(h.call('_getHumdrumStringAndLayoutsFromM21Expressions', AList([orn]), n, '4', 0, None))
        return d(s), [d(x) for x in d(l).v]

    def read_orn(s, l, rest=''):
        n = h.note()
        tk = h.tok('4c' + s + rest, l)
        d(tk).attrs['subTrack'] = 0
        h.meth(h.file(), '_addOrnaments', n, tk, 0)
        return n.attrs['expressions'].v

    def trills():
        for semi in (1, 2, -1, -2):
            for acc in ACC:
                for shown in (True, False):
                    def rt():
                        s, l = write_orn('Trill' if semi > 0 else 'InvertedTrill', ornamentalPitch=orn_pitch(semi, acc, shown))
                        ch = s.rstrip('<')
                        e = [d(x) for x in read_orn(s, l)]
                        return (ch, [cname(x) for x in e], [accnum(x) for x in e], [x.attrs.get('placement') for x in e])
                    want = ('t' if abs(semi) == 1 else 'T', ['Trill'],
                            [(ACC[acc], True) if acc and shown else None], ['below' if semi < 0 else None])
                    judge(rep, ip, f'trill of {semi} semitones, accidental {acc} shown {shown}',
                          'M21Convert._getHumdrumStringAndLayoutsFromM21TrillMordentTurn', rt, lambda v: v == want)
    rep.family('trill', 'a trill is read back as a trill with its size and shown accidental', trills, 30)

    def mordents():
        for semi in (1, 2, -1, -2, None):
            for cls in ('InvertedMordent', 'Mordent'):
                if semi is not None and (semi > 0) != (cls == 'InvertedMordent'):
                    continue
                for acc in ACC:
                    for shown in (True, False):
                        def rt():
                            s, l = write_orn(cls, pitches=semi is not None, ornamentalPitch=orn_pitch(semi, acc, shown))
                            e = [d(x) for x in read_orn(s, l)]
                            return (s, [cname(x) for x in e], [accnum(x) for x in e])
                        big = semi is not None and abs(semi) == 2
                        ch = {('InvertedMordent', False): 'm', ('InvertedMordent', True): 'M', ('Mordent', False): 'w',
                              ('Mordent', True): 'W'}[(cls, big)]
                        want = (ch, [cls], [(ACC[acc], True) if acc and shown else None])
                        judge(rep, ip, f'{cls} of {semi} semitones, accidental {acc} shown {shown}',
                              'M21Convert._getHumdrumStringAndLayoutsFromM21TrillMordentTurn', rt, lambda v: v == want)
    rep.family('mordent', 'an upper or lower mordent is read back as the same kind with its size and shown accidental',
               mordents, 40)

    def turns():
        for cls in ('Turn', 'InvertedTurn'):
            for delayed in (True, False):
                for su, sl in ((1, -1), (1, -2), (2, -1), (2, -2)):
                    for ua, la in ((None, None), ('sharp', None), (None, 'flat'), ('flat', 'sharp'),
                                   ('double-sharp', 'double-flat')):
                        for shown in (True, False):
                            def rt():
                                s, l = write_orn(cls, isDelayed=delayed, upperOrnamentalPitch=orn_pitch(su, ua, shown),
                                                 lowerOrnamentalPitch=orn_pitch(sl, la, shown))
                                e = [d(x) for x in read_orn(s, l)]
                                dl = [named(x, 'delay') for x in e]
                                return (s[-2:], [cname(x) for x in e],
                                        [getattr(x, 'name', None) for x in dl],
                                        [accnum(x, 'upperAccidental') for x in e], [accnum(x, 'lowerAccidental') for x in e])
                            want = (('s' if su == 1 else 'S') + ('s' if sl == -1 else 'S'), [cls],
                                    ['DEFAULT_DELAY' if delayed else 'NO_DELAY'],
                                    [(ACC[ua], True) if ua and shown else None], [(ACC[la], True) if la and shown else None])
                            judge(rep, ip, f'{cls} delayed {delayed} sizes {su},{sl} accidentals {ua},{la} shown {shown}',
                                  'M21Convert._getHumdrumStringAndLayoutsFromM21TrillMordentTurn', rt, lambda v: v == want)
    rep.family('turn', 'a turn is read back with its kind, delay, sizes and shown accidentals', turns, 100)

    def trillext():
        for semi in (1, 2, -1):
            for first in (True, False):
                for other in ((), ('Fermata',)):
                    ip.method_models[('TrillExtension', 'isFirst')] = lambda ip_, o, a, k: first

                    def wr():
                        main = mk(ip, 'music21.pitch.Pitch')
                        ex = []
                        if first:
                            ex.append(mk(ip, 'music21.expressions.Trill', ornamentalPitches=('x',),
                                         ornamentalPitch=orn_pitch(semi, None, False)))
                        ex.append(mk(ip, 'music21.expressions.TrillExtension'))
                        for o in other:
                            ex.append(mk(ip, 'music21.expressions.Fermata', type='inverted'))
                        n = h.note(pitches=(main,))
                        s, l = d(h.call('_getHumdrumStringAndLayoutsFromM21Expressions', AList(ex), n, '4', 0, None))
                        return s

                    def ok(v):
                        import re
                        runs = re.findall('[tT]+', v)
                        if len(runs) != 1:
                            return False
                        if first:
                            want = ('t' if abs(semi) == 1 else 'T') * 2
                            return runs[0] == want and v.startswith(want + '<' if semi < 0 else want) \
                                and (';' in v) == bool(other)
                        return runs[0] in ('ttt', 'TTT') and (';' in v) == bool(other)
                    judge(rep, ip, f'trill line, trill of {semi}, first {first}, with {other}',
                          'M21Convert._getHumdrumStringAndLayoutsFromM21Expressions', wr, ok)
    rep.family('trill-line', 'the wavy line of a trill starts as tt/TT and continues as ttt/TTT', trillext, 10)

    def ornsigns():
        for s, cls in (('t', 'Trill'), ('T', 'Trill'), ('m', 'InvertedMordent'), ('M', 'InvertedMordent'), ('w', 'Mordent'),
                       ('W', 'Mordent'), ('sSss', 'Turn'), ('SSs', 'Turn'), ('s$SS', 'InvertedTurn'), ('$sS', 'InvertedTurn')):
            for sg, pl in (('', None), ('>', 'above'), ('<', 'below')):
                for pre, post in (('', "'<"), ('', '^>'), ('', ';<'), ("'<", ''), ('^>', ''), (';', '~</L'), ('~>', ')')):
                    def rd():
                        n = h.note()
                        tk = h.tok('4c' + pre + s + sg + post, ())
                        d(tk).attrs['subTrack'] = 0
                        h.meth(h.file(), '_addOrnaments', n, tk, 0)
                        e = [d(x) for x in n.attrs['expressions'].v]
                        return [(cname(x), x.attrs.get('placement')) for x in e if cname(x) != 'Fermata']
                    want = pl if 'Mordent' not in cls or pl else 'above'
                    judge(rep, ip, f'{cls} {s}{sg} between {pre} and {post}', 'HumdrumFile._addOrnaments', rd,
                          lambda v: v == [(cls, want)])
    rep.family('ornament-signs', 'an ornament keeps its own placement whatever other placed signs surround it', ornsigns, 150)

    def fermatas():
        for ty in ('upright', 'inverted'):
            for pre, post in (('', ''), ('/', ''), ('', "'>"), ('', '~<'), ('', '>')):
                if post == '>':
                    continue

                def rt():
                    f = mk(ip, 'music21.expressions.Fermata', type=ty)
                    s, l = d(h.call('_getHumdrumStringAndLayoutsFromM21Expressions', AList([f]), h.note(), '4', 0, None))
                    n = h.note()
                    tk = h.tok('4c' + pre + d(s) + post)
                    h.meth(h.file(), '_addFermata', n, tk)
                    e = [d(x) for x in n.attrs['expressions'].v]
                    return [(cname(x), x.attrs.get('type')) for x in e]
                judge(rep, ip, f'fermata {ty} in {pre}..{post}', 'HumdrumFile._addFermata', rt,
                      lambda v: v == [('Fermata', ty)])
    rep.family('fermata', 'an upright or inverted fermata is read back', fermatas, 6)

    # ------------------------------------------------------------------ slurs
    def slurs():
        ip.method_models[('Slur', 'isFirst')] = lambda ip_, o, a, k: o.attrs['__first__']
        ip.method_models[('Slur', 'isLast')] = lambda ip_, o, a, k: o.attrs['__last__']
        sign = {None: '(', 'above': '(>', 'below': '(<'}
        pl = (None, 'above', 'below')
        import itertools
        for n in (0, 1, 2):
            for starts in itertools.product(pl, repeat=n):
                for stops in (0, 1, 2):
                    for mid in (0, 1):
                        def wr():
                            sp = [mk(ip, 'music21.spanner.Slur', placement=p, __first__=True, __last__=False) for p in starts]
                            sp += [mk(ip, 'music21.spanner.Slur', placement=None, __first__=False, __last__=True)
                                   for _ in range(stops)]
                            sp += [mk(ip, 'music21.spanner.Slur', placement=None, __first__=False, __last__=False)
                                   for _ in range(mid)]
                            ip.method_models[('Note', 'getSpannerSites')] = lambda ip_, o, a, k: AList(sp)
                            return h.call('_getKernSlurStartsAndStopsFromGeneralNote', h.note(), AList(sp))
                        want = (''.join(sign[p] for p in starts), ')' * stops)
                        judge(rep, ip, f'slurs starting {starts} ending {stops} passing {mid}',
                              'M21Convert._getKernSlurStartsAndStopsFromGeneralNote', wr, lambda v: v == want)
        ip.method_models.pop(('Note', 'getSpannerSites'), None)

        # reading: placement of the n-th slur start of a token, and hidden slurs
        for starts in [s for n in (1, 2) for s in itertools.product(pl, repeat=n)]:
            text = ''.join(sign[p] for p in starts) + '4c'
            for i, p in enumerate(starts):
                def rd():
                    hf = h.file()
                    st = h.tok(text)
                    en = h.tok('4d)')
                    ip.method_models[('HumdrumToken', 'getSlurStartNumber')] = lambda ip_, o, a, k: i + 1
                    ip.method_models[('HumdrumToken', 'getSlurStartToken')] = lambda ip_, o, a, k: st
                    f = ip.fn('HumdrumToken', 'setValue')
                    ip.call(FuncRef(f.node, f.mod, f.cls, en), ['auto', 'slurEndCount', '1'], {})
                    ip.method_models[('HumdrumFile', '_getGeneralNoteOrPlaceHolder')] = lambda ip_, o, a, k: h.note()
                    model(ip, 'HumdrumFile', '_getGeneralNoteOrPlaceHolder', lambda ip_, a, k: h.note())
                    got = []
                    ip.method_models[('Score', 'coreInsert')] = lambda ip_, o, a, k: got.append(d(a[1]))
                    hf.attrs['m21Score'] = mk(ip, 'music21.stream.Score')
                    h.meth(hf, '_processSlurs', h.note(), en)
                    if not got:
                        return 'no slur'
                    v = got[0].attrs.get('placement', None)
                    return v
                judge(rep, ip, f'slur {i + 1} of {text} read', 'HumdrumFile._processSlurs', rd, lambda v: v == p)
        for key in (('HumdrumToken', 'getSlurStartNumber'), ('HumdrumToken', 'getSlurStartToken'),
                    ('HumdrumFile', '_getGeneralNoteOrPlaceHolder'), ('Score', 'coreInsert')):
            ip.method_models.pop(key, None)
        ip.models.pop(ip.fn('HumdrumFile', '_getGeneralNoteOrPlaceHolder').qual, None)
    rep.family('slur', 'every slur that starts or ends on a note is written with its placement, and the placement is read '
               'back for the right slur', slurs, 80)

    # ------------------------------------------------------------------ tremolos
    def tremolos():
        ql = {'1': 4, '2': 2, '4': 1, '8': Fraction(1, 2), '16': Fraction(1, 4), '32': Fraction(1, 8)}
        for rc in ql:
            for marks in range(1, 6):
                def rt():
                    tr = mk(ip, 'music21.expressions.Tremolo', numberOfMarks=marks)
                    du = mk(ip, 'music21.duration.Duration', tuplets=(), quarterLength=ql[rc])
                    s = d(h.call('_getHumdrumStringFromTremolo', tr, du, rc, 0, None))
                    n = h.note()
                    ip.call(ip.fn('HumdrumFile', '_processUnexpandedTremolo'), [n, h.tok(rc + 'c' + s)], {})
                    return [d(x).attrs.get('numberOfMarks') for x in n.attrs['expressions'].v]
                judge(rep, ip, f'bowed tremolo of {marks} marks on {rc}', 'HumdrumFile._processUnexpandedTremolo', rt,
                      lambda v: v == [marks])
    rep.family('tremolo', 'a bowed tremolo is read back with the same number of marks', tremolos, 25)

    # ------------------------------------------------------------------ ottavas and pedals
    def ottavas():
        want = {'8va': '8va', '8vb': '8ba', '15ma': '15ma', '15mb': '15ba'}
        for ty, s in want.items():
            for st in (True, False):
                def wr():
                    return h.call('getKernTokenStringFromM21OttavaOrPedal', mk(ip, 'music21.spanner.Ottava', type=ty), st)
                judge(rep, ip, f'ottava {ty} start {st}', 'M21Convert.getKernTokenStringFromM21OttavaOrPedal', wr,
                      lambda v: v == ('*' if st else '*X') + s)
    rep.family('ottava', 'ottava starts and ends are written as the matching interpretations', ottavas, 8)

    # ------------------------------------------------------------------ dynamics
    def dynamics():
        vals = ['p', 'pp', 'ppp', 'pppp', 'f', 'ff', 'fff', 'ffff', 'mp', 'mf', 'sf', 'sfz', 'sffz', 'fz', 'fp', 'sfp',
                'sfzp', 'ffp', 'rf', 'rfz']
        br = {'brack': '[ %s ]', 'paren': '( %s )', 'curly': '{ %s }', 'angle': '< %s >'}
        for v in vals:
            judge(rep, ip, f'dynamic {v}', 'M21Convert.getDynamicString',
                  lambda: h.call('getDynamicString', mk(ip, 'music21.dynamics.Dynamic', value=v)), lambda x: x == v)
            for name, fmt in br.items():
                full = fmt % v

                def th():
                    dy = mk(ip, 'music21.dynamics.Dynamic', value=full, hasStyleInformation=False, placement=None)
                    return (h.call('getDynamicString', dy), h.call('getDynamicParameters', dy, 0))
                judge(rep, ip, f'dynamic {full}', 'M21Convert.getDynamicParameters', th, lambda x: x == (v, ':ed=' + name))
            for fmt in ('%s sempre', 'sempre %s', 'poco %s ma non troppo'):
                full = fmt % v

                def th():
                    dy = mk(ip, 'music21.dynamics.Dynamic', value=full, hasStyleInformation=False, placement=None)
                    return (h.call('getDynamicString', dy), h.call('getDynamicParameters', dy, 0))
                judge(rep, ip, f'dynamic {full}', 'M21Convert.getDynamicParameters', th,
                      lambda x: x == (v, ':t=' + fmt))
        for pl in (None, 'above', 'below'):
            for mid in (False, True):
                for just in (None, 'left', 'right', 'center'):
                    for staff in (0, 1, 2):
                        def th():
                            st = mk(ip, 'music21.style.TextStyle', alignVertical='middle' if mid else None, justify=just)
                            dy = mk(ip, 'music21.dynamics.Dynamic', value='f', hasStyleInformation=True, placement=pl, style=st)
                            return h.call('getDynamicParameters', dy, staff)
                        s = f'={staff + 1}' if staff else ''
                        want = '' if pl is None else ':a' + s if pl == 'above' else \
                            (':b' + s if not mid else ('' if staff == 0 else ':c' + s))
                        want += {'right': ':rj', 'center': ':cj'}.get(just, '')
                        judge(rep, ip, f'dynamic placed {pl} middle {mid} justified {just} staff {staff}',
                              'M21Convert.getDynamicParameters', th, lambda x: x == want)
                        if staff == 0 and want and not mid:
                            def rd():
                                tk = h.tok('f', ['!LO:DY' + want])
                                ab = ip.call(ip.fn('HumdrumFile', '_hasAboveParameterStaffAdj'), [tk, 'DY', 0], {})
                                be = ip.call(ip.fn('HumdrumFile', '_hasBelowParameterStaffAdj'), [tk, 'DY', 0], {})
                                f = ip.fn('HumdrumToken', 'layoutParameter')
                                lp = lambda k: ip.call(FuncRef(f.node, f.mod, f.cls, tk), ['DY', k], {})
                                return (d(ab)[0], d(be)[0], lp('rj') == 'true', lp('cj') == 'true')
                            judge(rep, ip, f'dynamic parameters {want} read', 'HumParamSet.readString', rd, lambda x: x == (
                                pl == 'above', pl == 'below', just == 'right', just == 'center'))
        for cls, w in (('Crescendo', ('<', '[', '<[')), ('Diminuendo', ('>', ']', '>]'))):
            for (st, en), s in zip(((True, False), (False, True), (True, True)), w):
                judge(rep, ip, f'{cls} start {st} end {en}', 'M21Convert.getDynamicWedgeString',
                      lambda: h.call('getDynamicWedgeString', mk(ip, 'music21.dynamics.' + cls), st, en), lambda x: x == s)
        for val, ch in (('sf', 'z'), ('sfz', 'zz'), ('f', None)):
            for pl, sx in ((None, ''), ('above', '>'), ('below', '<')):
                def th():
                    dy = mk(ip, 'music21.dynamics.Dynamic', value=val, placement=pl)
                    return h.call('_getSfOrSfzFromM21GeneralNote', h.note(humdrum_sf_or_sfz=dy))
                judge(rep, ip, f'{val} on a note {pl}', 'M21Convert._getSfOrSfzFromM21GeneralNote', th,
                      lambda x: x == ('' if ch is None else ch + sx))
    rep.family('dynamic', 'every dynamic (with brackets or words around it, placement, justification) and wedge is written '
               'as the matching token and parameters', dynamics, 250)

    # ------------------------------------------------------------------ tie pairing while reading
    def tiepair():
        for at, v in (('isMens', False), ('track', 1), ('isChord', False)):
            ip.attr_models[('HumdrumToken', at)] = (lambda v: lambda ip_, o: v)(v)
        ip.attr_models[('HumdrumToken', 'durationFromStart')] = lambda ip_, o: o.attrs['__t__']
        ip.attr_models[('HumdrumToken', 'duration')] = lambda ip_, o: 1
        for ty, sg in (('start', '['), ('continue', '_')):
            for pl, ps in ((None, ''), ('above', '>'), ('below', '<')):
                for st, lay in (('normal', ()), ('dotted', ('!LO:T:dot',)), ('dashed', ('!LO:T:dash',)), ('hidden', ())):
                    for other in ('4c]', '4c_'):
                        if st == 'hidden' and ps:
                            continue

                        def rd():
                            hf = h.file()
                            hf.attrs['_staffStartsIndexByTrack'] = AList([-1, 0])
                            d(hf.attrs['_staffStates'].v[0]).attrs['ties'] = AList([])
                            s1 = sg + ps + ('y' if st == 'hidden' else '') + '4c' if ty == 'start' else \
                                '4c' + sg + ps + ('y' if st == 'hidden' else '')
                            a, b = h.tok(s1, lay), h.tok(other)
                            d(a).attrs['__t__'], d(b).attrs['__t__'] = 0, 1
                            n1, n2 = h.note(), h.note()
                            h.meth(hf, '_processTieStart', n1, a, s1, -1, 0)
                            h.meth(hf, '_processTieEnd', n2, b, other, -1, 0)
                            t1, t2 = d(n1.attrs['tie']), d(n2.attrs['tie'])

                            def f(t):
                                if t is None:
                                    return None
                                return (d(t.attrs.get('__args__', (t.attrs.get('type'),))[0]), t.attrs.get('style', 'normal'),
                                        t.attrs.get('placement'))
                            return (f(t1), f(t2))
                        want = ((ty, st, pl), ('stop', 'normal', None) if other == '4c]' else None)
                        judge(rep, ip, f'tie {sg}{ps} {st} ending on {other}', 'HumdrumFile._processTieEnd', rd,
                              lambda v: v == want)
        for at in ('isMens', 'track', 'isChord', 'durationFromStart', 'duration'):
            ip.attr_models.pop(('HumdrumToken', at), None)
    rep.family('tie-pairing', 'a tie gets its type, style and placement from the note where it starts', tiepair, 20)

    # ------------------------------------------------------------------ reading dynamics
    def dynread():
        kept = dict(ip.attr_models)
        for at, v in (('isGrace', False), ('track', 1), ('fieldIndex', 0), ('subTrack', 0), ('durationFromBarline', 0)):
            ip.attr_models[('HumdrumToken', at)] = (lambda v: lambda ip_, o: v)(v)
        ip.attr_models[('HumdrumToken', 'ownerLine')] = lambda ip_, o: o.attrs['__ln__']
        ip.attr_models[('HumdrumToken', 'isKern')] = lambda ip_, o: o.attrs.get('__kern__', False)
        ip.attr_models[('HumdrumToken', 'dataType')] = lambda ip_, o: mk(ip, 'HumdrumToken', text='**dynam')
        ip.method_models[('HumdrumToken', 'isDataType')] = lambda ip_, o, a, k: d(a[0]) == '**dynam'
        ip.attr_models[('HumdrumFile', 'staffCount')] = lambda ip_, o: 2
        ip.attr_models[('HumdrumLine', 'tokenCount')] = lambda ip_, o: len(o.attrs['__toks__'])
        ip.method_models[('HumdrumLine', '__getitem__')] = lambda ip_, o, a, k: o.attrs['__toks__'][d(a[0])]

        ip.ctor_models['music21.dynamics.Dynamic'] = lambda ip_, c, a, k: mk(
            ip_, 'music21.dynamics.Dynamic', value=a[0], placement=None,
            style=mk(ip_, 'music21.style.TextStyle', alignVertical=None, justify=None))

        def rd(kern, dyn, klay=(), dlay=()):
            hf = h.file()
            d(hf.attrs['_staffStates'].v[0]).attrs.update(dynamPos=0, dynamPosDefined=False, hasLyrics=False, dynamStaffAdj=0)
            kt, dt = h.tok(kern, klay), h.tok(dyn, dlay)
            ln = mk(ip, 'HumdrumLine', __toks__=[kt, dt])
            for x in (kt, dt):
                d(x).attrs['__ln__'] = ln
            d(kt).attrs['__kern__'] = True
            got = []
            ip.method_models[('Voice', 'coreInsert')] = lambda ip_, o, a, k: got.append(d(a[1]))
            h.meth(hf, '_processDynamics', 0, mk(ip, 'music21.stream.Voice'), 0, kt, 0)
            out = []
            for x in got:
                sty = d(x.attrs['style']).attrs
                out.append((d(x.attrs['value']), d(x.attrs['placement']), d(sty['alignVertical']), d(sty['justify'])))
            return AList(out)
        for v in ('p', 'pp', 'f', 'ff', 'mp', 'mf', 'sf', 'sfz', 'fp', 'sfzp', 'rfz', 'fz'):
            judge(rep, ip, f'dynamic {v} read', 'HumdrumFile._processDynamics', lambda: rd('4c', v),
                  lambda x: [y[0] for y in x] == [v] and x[0][1] is None)
            for ed, fmt in (('brack', '[ %s ]'), ('paren', '( %s )'), ('curly', '{ %s }'), ('angle', '< %s >')):
                judge(rep, ip, f'dynamic {v} with {ed} read', 'HumdrumFile._processDynamics',
                      lambda: rd('4c', v, (), (f'!LO:DY:ed={ed}',)), lambda x: [y[0] for y in x] == [fmt % v])
        for lay, pl in ((':a', ('above', None)), (':b', ('below', None)), (':c', ('below', 'middle'))):
            for ju, jv in (('', None), (':rj', 'right'), (':cj', 'center')):
                judge(rep, ip, f'dynamic with {lay}{ju} read', 'HumdrumFile._processDynamics',
                      lambda: rd('4c', 'f', (), (f'!LO:DY{lay}{ju}',)), lambda x: x == [('f',) + pl + (jv,)])
        for s, v in (('z', 'sf'), ('zz', 'sfz')):
            for sx, pl in (('', None), ('>', 'above'), ('<', 'below')):
                for rest in ('', '/', "'"):
                    judge(rep, ip, f'{v} on a note as {s}{sx}{rest} read', 'HumdrumFile._processDynamics',
                          lambda: rd('4c' + s + sx + rest, '.'), lambda x: [y[:2] for y in x] == [(v, pl)])
        ip.ctor_models.pop('music21.dynamics.Dynamic')
        ip.attr_models.clear()
        ip.attr_models.update(kept)
        for k in (('HumdrumToken', 'isDataType'), ('HumdrumLine', '__getitem__'), ('Voice', 'coreInsert')):
            ip.method_models.pop(k, None)
    rep.family('dynamic-reading', 'dynamics beside or on a note are read with their value, enclosure, placement and '
               'justification', dynread, 60)

    # ------------------------------------------------------------------ whole note and chord tokens
    def whole():
        model(ip, 'M21Convert', 'kernRecipAndGraceTypeFromGeneralNote', lambda ip_, a, k: ('4', '', ''))
        model(ip, 'M21Convert', 'kernPitchFromM21Pitch', lambda ip_, a, k: d(a[0]).attrs['__kern__'])
        model(ip, 'M21Utilities', 'getAllExpressionsFromGeneralNote', lambda ip_, a, k: d(a[0]).attrs['expressions'])
        model(ip, 'M21Utilities', 'getNonIgnoredBeams', lambda ip_, a, k: d(a[0]).attrs['beams'])
        ip.method_models[('Slur', 'isFirst')] = lambda ip_, o, a, k: o.attrs['__first__']
        ip.method_models[('Slur', 'isLast')] = lambda ip_, o, a, k: not o.attrs['__first__']

        def sites(ip_, o, a, k):
            return o.attrs.get('__slurs__', AList([]))
        for c in ('Note', 'Chord', 'Unpitched', 'Rest'):
            ip.method_models[(c, 'getSpannerSites')] = sites

        def features(fs):
            kw = {}
            for f in fs:
                if f == 'tie':
                    kw['tie'] = mk(ip, 'music21.tie.Tie', type='start', style='normal', placement='above')
                if f == 'tiestop':
                    kw['tie'] = mk(ip, 'music21.tie.Tie', type='stop', style='normal', placement=None)
                if f == 'artic':
                    kw['articulations'] = AList([mk(ip, 'music21.articulations.Accent', classes=('Accent',), placement='below')])
                if f == 'fermata':
                    kw['expressions'] = AList([mk(ip, 'music21.expressions.Fermata', type='upright')])
                if f == 'stem':
                    kw['stemDirection'] = 'up'
                if f == 'beam':
                    kw['beams'] = AList([mk(ip, 'music21.beam.Beam', type='start', direction=None)])
                if f == 'slur':
                    kw['__slurs__'] = AList([mk(ip, 'music21.spanner.Slur', placement='below', __first__=True)])
                if f == 'slurend':
                    kw['__slurs__'] = AList([mk(ip, 'music21.spanner.Slur', placement=None, __first__=False)])
                if f == 'head':
                    kw['notehead'] = 'diamond'
                if f == 'sf':
                    kw['humdrum_sf_or_sfz'] = mk(ip, 'music21.dynamics.Dynamic', value='sfz', placement=None,
                                                 hasStyleInformation=False)
            return kw
        sig = {'tie': '[>', 'tiestop': ']', 'artic': '^<', 'fermata': ';', 'stem': '/', 'beam': 'L', 'slur': '(<', 'slurend': ')',
               'sf': 'zz'}
        feats = ['tie', 'tiestop', 'artic', 'fermata', 'stem', 'beam', 'slur', 'slurend', 'head', 'sf']

        def base(**kw):
            e = dict(beams=AList([]), classes=('Note',), duration=mk(ip, 'music21.duration.Duration', tuplets=()))
            e.update(kw)
            n = h.note(**e)
            n.attrs['pitch'] = mk(ip, 'music21.pitch.Pitch', __kern__='ee')
            if 'humdrum_sf_or_sfz' not in e:
                n.attrs['humdrum_sf_or_sfz'] = None
            return n
        for fs in [()] + [(a,) for a in feats] + [(a, b) for i, a in enumerate(feats) for b in feats[i + 1:]
                                                   if {a, b} != {'tie', 'tiestop'} and {a, b} != {'slur', 'slurend'}]:
            def wr():
                n = base(**features(fs))
                if 'sf' not in fs:
                    n.attrs.pop('humdrum_sf_or_sfz')
                    n.open = False
                s, l = d(h.call('kernTokenStringAndLayoutsFromM21Note', n, AList([]), None))
                return (s, l)

            def ok(v):
                s, l = v
                need = [sig[f] for f in fs if f in sig]
                return '4ee' in s and all(x in s for x in need) and len(s) == 3 + sum(map(len, need)) \
                    and (any('head=dia' in x for x in l) == ('head' in fs)) \
                    and (not ({'tie', 'slur'} & set(fs)) or s.index('4ee') > 0)
            judge(rep, ip, f'note with {fs}', 'M21Convert.kernTokenStringAndLayoutsFromM21Note', wr, ok)

        cfeats = ['artic', 'fermata', 'stem', 'beam', 'slur', 'slurend', 'sf']
        for size in (1, 2, 3):
            for fs in [()] + [(a,) for a in cfeats] + [(a, b) for i, a in enumerate(cfeats) for b in cfeats[i + 1:]
                                                        if {a, b} != {'slur', 'slurend'}]:
                for tied in range(size) if len(fs) < 2 else (0,):
                    def wr():
                        notes = []
                        for i in range(size):
                            n = base(**(features(('tie', 'head')) if i == tied else {}))
                            n.attrs.pop('humdrum_sf_or_sfz')
                            n.attrs['pitch'] = mk(ip, 'music21.pitch.Pitch', __kern__='ceg'[i])
                            n.open = False
                            notes.append(n)
                        ch = mk(ip, 'music21.chord.Chord', articulations=AList([]), expressions=AList([]), beams=AList([]),
                                stemDirection='unspecified', pitches=(), tie=None, hasStyleInformation=False,
                                duration=mk(ip, 'music21.duration.Duration', tuplets=()))
                        ch.attrs.update(features(fs))
                        ch.attrs['__iter__'] = AList(notes)
                        if 'sf' not in fs:
                            ch.open = False
                        model(ip, 'M21Convert', 'kernPitchesFromM21Chord', lambda ip_, a, k: AList(list('ceg'[:size])))
                        ip.method_models[('Chord', '__iter__')] = lambda ip_, o, a, k: o.attrs['__iter__']
                        ip.method_models[('Chord', '__len__')] = lambda ip_, o, a, k: len(o.attrs['__iter__'].v)
                        s, l = d(h.call('kernTokenStringAndLayoutsFromM21Chord', ch, AList([]), None))
                        return (s, l)

                    def ok(v):
                        s, l = v
                        ts = s.split(' ')
                        if len(ts) != size or any('4' + c not in t for c, t in zip('ceg', ts)):
                            return False
                        for i, t in enumerate(ts):
                            if ('[>' in t) != (i == tied):
                                return False
                            for f in ('artic', 'fermata', 'stem', 'sf'):
                                if f in fs and sig[f] not in t:
                                    return False
                        for f in ('beam', 'slur', 'slurend'):
                            if s.count(sig[f]) != (1 if f in fs else 0):
                                return False
                        if 'slur' in fs and '(<' not in ts[0] or 'slurend' in fs and ')' not in ts[-1]:
                            return False
                        return l == [f'!LO:N:n={tied + 1}:head=diamond']
                    judge(rep, ip, f'chord of {size} with {fs}, note {tied + 1} tied', 'M21Convert.kernTokenStringAndLayoutsFromM21Chord',
                          wr, ok)
    rep.family('whole-token', 'every pair of markings appears in the token of a note or chord, on the right note', whole, 100)
    rep.use(ip)
