"""C12: words, lyrics, tempos and rehearsal marks survive Humdrum."""
from __future__ import annotations
from props.common import *
from props.c03 import H, cname

EXPLANATION = (
    'Constant-propagation abstract interpretation of the Humdrum writer for text directions, rehearsal marks, tempos, lyrics '
    'and verse labels over a vocabulary of texts (colons, line breaks, non-breaking spaces, equals signs, leading comment '
    'characters), styles, placements and verse numbers; the layout comments and tokens it builds are handed to the reader '
    'functions.  Oracle: what is read back equals what was written.')

TEXTS = ['dolce', 'a: b', 'a:b:c=d', 'a\xa0b', 'a\nb', 'x=y', '=', '!x', '*x', 'a;b', '"q"', 'con brio (quasi)', '100%', 'ré',
         't=1', 'place', 'a b  c', 'x|y', '[x]', 'p', '-', '.', 'omd', "l'istesso", 'tempo', ':', '::', '\xa0']


def run(rep):
    ip = new_ip(max_steps=300000)
    h = H(ip)
    d = ip.deref

    def tstyle(**kw):
        at = dict(absoluteY=None, fontStyle=None, fontWeight=None, fontSize=None, justify=None, color=None,
                  alignVertical=None, enclosure=None, placement=None)
        at.update(kw)
        return mk(ip, 'music21.style.TextStylePlacement', **at)

    def newte(kind, key):
        def ctor(ip_, c, a, k):
            return mk(ip_, kind, **{key: (a[0] if a else k.get(key)), 'placement': None, 'style': tstyle()})
        return ctor
    ip.ctor_models['music21.expressions.TextExpression'] = newte('music21.expressions.TextExpression', 'content')
    ip.ctor_models['music21.expressions.RehearsalMark'] = newte('music21.expressions.RehearsalMark', 'content')

    def mmark(ip_, c, a, k):
        names = ('text', 'number', 'referent')
        at = dict(zip(names, a))
        at.update({n: k[n] for n in names if n in k})
        for n in names:
            at.setdefault(n, None)
        return mk(ip_, 'music21.tempo.MetronomeMark', placement=None, style=tstyle(), hasStyleInformation=False, **at)
    ip.ctor_models['music21.tempo.MetronomeMark'] = mmark
    ip.ctor_models['music21.duration.Duration'] = lambda ip_, c, a, k: mk(
        ip_, 'music21.duration.Duration', type=k.get('type'), dots=k.get('dots', 0))
    for at, v in (('track', 1), ('subTrack', 0), ('isMens', False), ('previousFieldToken', None), ('nextFieldToken', None)):
        ip.attr_models[('HumdrumToken', at)] = (lambda at, v: lambda ip_, o: o.attrs.get('__' + at, v))(at, v)
    ip.attr_models[('HumdrumToken', 'durationFromBarline')] = lambda ip_, o: o.attrs.get('__off__', 0)
    for cl in ('Voice', 'Measure'):
        for nm in ('coreInsert', 'insert'):
            ip.method_models[(cl, nm)] = lambda ip_, o, a, k: o.attrs['__in__'].append((a[0], a[1]))
        ip.method_models[(cl, 'coreElementsChanged')] = lambda ip_, o, a, k: None
    holder = lambda c='Voice': mk(ip, 'music21.stream.' + c, __in__=[])

    def reader(staves=1):
        hf = h.file()
        hf.attrs['_staffStarts'] = AList([None] * staves)
        hf.attrs['_layoutDefaultStyles'] = ADict({})
        hf.attrs['staffCount'] = staves
        return hf
    ip.attr_models[('HumdrumFile', 'staffCount')] = lambda ip_, o: o.attrs['staffCount']

    def glob(layout):
        """a barline token with one global layout comment attached"""
        tk = h.tok('=1')
        lt = ip.instantiate(ip.cls('HumdrumToken'), [layout], {})
        d(lt).attrs['__line__'] = 0
        f = ip.fn('HumdrumToken', 'storeParameterSet')
        ip.call(FuncRef(f.node, f.mod, f.cls, lt), [], {})
        f = ip.fn('HumdrumToken', 'addLinkedParameterSet')
        ip.call(FuncRef(f.node, f.mod, f.cls, tk), [lt], {})
        return tk

    # ------------------------------------------------------------------ text directions
    STY = [dict(), dict(fontStyle='italic'), dict(fontStyle='bold'), dict(fontStyle='bolditalic'), dict(fontWeight='bold'),
           dict(fontStyle='italic', fontWeight='bold'), dict(justify='right'), dict(justify='center'), dict(justify='left'),
           dict(color='red'), dict(color='#00ff00', fontStyle='italic', justify='right'), dict(fontStyle='normal')]

    def font(s):
        i = s.get('fontStyle') in ('italic', 'bolditalic')
        b = s.get('fontStyle') in ('bold', 'bolditalic') or s.get('fontWeight') == 'bold'
        return 'bolditalic' if i and b else 'italic' if i else 'bold' if b else None

    def texts():
        cases = [(x, pl, {}, 0, 0) for x in TEXTS for pl in ('above', 'below', 'middle', None)]
        cases += [(x, pl, s, 0, 0) for x in ('dolce', 'a: b') for pl in ('above', 'below', 'middle') for s in STY]
        cases += [('dolce', 'above', s, off, v) for s in STY[:2] for off in (1, Fraction(1, 3), 2.5) for v in (0, 1)]
        for txt, pl, s, off, voff in cases:
            def rt():
                st = tstyle(alignVertical='middle' if pl == 'middle' else None, **s)
                te = mk(ip, 'music21.expressions.TextExpression', content=txt, placement='below' if pl == 'middle' else pl,
                        hasStyleInformation=bool(s) or pl == 'middle', style=st)
                lay = d(h.call('textLayoutParameterFromM21TextExpression', te))
                tk = h.tok('4c', [lay])
                d(tk).attrs['__off__'] = off
                vo = holder()
                h.meth(reader(), '_processLinkedDirection', 0, 0, vo, voff, tk, 0)
                got = vo.attrs['__in__']
                if len(got) != 1:
                    return len(got)
                x = d(got[0][1])
                xs = d(x.attrs['style']).attrs
                g = lambda o, k: d(o.attrs.get(k)) if isinstance(o, Obj) else None
                return (cname(x), frac(d(got[0][0])), d(x.attrs.get('content')), g(x, 'placement'), d(xs['fontStyle']), d(xs['justify']),
                        d(xs['color']), d(xs['alignVertical']))
            want = ('TextExpression', Fraction(off) - voff, txt.strip(' '), 'below' if pl == 'middle' else pl or 'above', font(s),
                    s.get('justify') if s.get('justify') != 'left' else None, s.get('color'),
                    'middle' if pl == 'middle' else None)
            if txt == '\xa0':
                continue
            judge(rep, ip, f'text {txt!r} {pl} {s} at {off} (voice {voff})', 'HumdrumFile._processLinkedDirection', rt,
                  lambda v: v == want, show=f'expected {want}')
    rep.family('text-direction', 'the words of a text direction, their place, font, justification, color and position in time '
               'are read back', texts, 150)

    # ------------------------------------------------------------------ rehearsal marks
    ENC = ip.cls('music21.style.Enclosure')
    model(ip, 'HumdrumFile', '_getNextBarlineIndex', lambda ip_, a, k: 0)
    model(ip, 'HumdrumFile', 'measureIndexFromKey', lambda ip_, a, k: 0)

    def rehs():
        cases = [(x, pl, {}, 0, 1, 1) for x in TEXTS for pl in ('above', 'below', None)]
        cases += [('A: 1', 'above', s, 0, 1, 1) for s in STY]
        cases += [('B', 'above', dict(fontSize=z), 0, 1, 1) for z in (None, 12, 8)]
        cases += [('B', pl, {}, off, st, n) for pl in ('above', 'below') for off in (0, 1, 2.5, Fraction(1, 3), 0.25) for n in (1, 2, 3)
                  for st in range(1, n + 1)]
        for txt, pl, s, off, staff, n in cases:
            if txt == '\xa0':
                continue

            def rt():
                st = tstyle(placement=pl, **s)
                te = mk(ip, 'music21.expressions.RehearsalMark', content=txt, hasStyleInformation=True, style=st)
                lay = d(h.call('rehearsalMarkLayoutParameterFromM21RehearsalMark', te, staff, off))
                tk = glob(lay)
                hf = reader(n)
                ln = mk(ip, 'HumdrumLine', _tokens=AList([tk]))
                hf.attrs['_lines'] = AList([ln])
                ms = [holder('Measure') for _ in range(n)]
                hf.attrs['_allMeasuresPerStaff'] = AList([AList(ms)])
                h.meth(hf, '_checkForGlobalRehearsal', (0, 5))
                got = [(i + 1, o, x) for i, m in enumerate(ms) for o, x in m.attrs['__in__']]
                if len(got) != 1:
                    return len(got)
                i, o, x = got[0]
                x = d(x)
                xs = d(x.attrs['style']).attrs
                z = d(xs['fontSize'])
                return (i, frac(d(o)).limit_denominator(1000), d(x.attrs['content']), d(xs['placement']), d(xs['fontStyle']), d(xs['justify']),
                        d(xs['color']), None if z is None else str(z))
            want = (staff, Fraction(off), txt, pl, font(s), s.get('justify') if s.get('justify') != 'left' else None,
                    s.get('color'), None if s.get('fontSize') is None else str(s['fontSize']))
            judge(rep, ip, f'rehearsal mark {txt!r} {pl} {s} at {off} staff {staff}/{n}', 'HumdrumFile._checkForGlobalRehearsal', rt,
                  lambda v: v == want, show=f'expected {want}')
    ip.attr_models[('HumdrumLine', 'isBarline')] = lambda ip_, o: True
    rep.family('rehearsal-mark', 'the text of a rehearsal mark, its staff, place, font, size, justification, color and position in '
               'time are read back', rehs, 90)

    def encs():
        def member(nm):
            return ip.getattr(ENC, nm)
        for nm in ('SQUARE', 'CIRCLE', 'TRIANGLE', 'DIAMOND', None):
            def rt():
                st = tstyle(enclosure=None if nm is None else member(nm), placement='above')
                te = mk(ip, 'music21.expressions.RehearsalMark', content='A', hasStyleInformation=True, style=st)
                lay = d(h.call('rehearsalMarkLayoutParameterFromM21RehearsalMark', te, 1, 0))
                tk = glob(lay)
                hf = reader(1)
                hf.attrs['_lines'] = AList([mk(ip, 'HumdrumLine', _tokens=AList([tk]))])
                m = holder('Measure')
                hf.attrs['_allMeasuresPerStaff'] = AList([AList([m])])
                h.meth(hf, '_checkForGlobalRehearsal', (0, 5))
                x = d(d(m.attrs['__in__'][0][1]).attrs['style']).attrs['enclosure']
                x = d(x)
                return (lay, getattr(x, 'name', None) if not isinstance(x, str) else x)
            judge(rep, ip, f'enclosure {nm}', 'M21Convert.rehearsalMarkLayoutParameterFromM21Pieces', rt, lambda v: v[1] == nm)
    rep.family('rehearsal-enclosure', 'the shape drawn around a rehearsal mark is read back', encs, 0)

    # ------------------------------------------------------------------ tempos
    NOTES = {'double-whole': 'breve', 'whole': 'whole', 'half': 'half', 'quarter': 'quarter', '8th': 'eighth', '16th': '16th',
             '32nd': '32nd', '64th': '64th', '128th': '128th', '256th': '256th', '512th': '512th', '1024th': '1024th'}
    more = {'breve': 'breve', 'eighth': 'eighth', 'sixteenth': '16th', '0': 'breve', '1': 'whole', '2': 'half', '4': 'quarter',
            '8': 'eighth', '16': '16th', '32': '32nd', '64': '64th', '128': '128th', '256': '256th', '512': '512th', '1024': '1024th'}

    def notes():
        for table, dotted in ((NOTES, True), (more, False)):
            for nm, ty in table.items():
                for dots in (0, 1, 2, 3):
                    for form in (['-dot', '.'] if nm.isdigit() else ['-dot']):
                        for fmt in ('%s', '[%s]', '%s|x', '%s@p'):
                            name = fmt % (nm + form * dots)
                            if (fmt == '%s' and nm == '0') and False:
                                continue

                            def rt():
                                x = d(h.call('durationFromHumdrumTempoNoteName', name))
                                return (d(x.attrs['type']), d(x.attrs['dots']))
                            judge(rep, ip, f'note name {name}', 'M21Convert.durationFromHumdrumTempoNoteName', rt,
                                  lambda v: v == (ty, dots))
        for nm, ty in NOTES.items():
            for dots in (0, 1, 2, 3):
                for a, b in (('', '60'), ('Andante ', '60.5'), ('Più mosso ', '120'), ('ca. (', '72)')):
                    text = a + '[' + nm + '-dot' * dots + '] = ' + b
                    for sp in (' = ', '=', ' =', '= '):
                        t2 = text.replace(' = ', sp)

                        def rt():
                            x = d(ip.call(ip.fn('Convert', 'getTempoText'), [t2], {}))
                            return h.call('translateSMUFLNotesToNoteNames', x)
                        judge(rep, ip, f'metronome text {t2!r}', 'Convert.getTempoText', rt, lambda v: v == text)
        for ty in set(NOTES.values()):
            for dots in (0, 1, 2):
                def rt():
                    n = h.call('getHumdrumTempoNoteNameFromM21Duration', mk(ip, 'music21.duration.Duration', type=ty, dots=dots))
                    x = d(h.call('durationFromHumdrumTempoNoteName', n))
                    return (d(x.attrs['type']), d(x.attrs['dots']))
                judge(rep, ip, f'note value {ty} {dots}', 'M21Convert.getHumdrumTempoNoteNameFromM21Duration', rt,
                      lambda v: v == (ty, dots))
        for t2 in ('Allegro', 'a [b]', 'x\u2009y', 'a\xa0b'):
            judge(rep, ip, f'text without notes {t2!r}', 'M21Convert.translateSMUFLNotesToNoteNames',
                  lambda: h.call('translateSMUFLNotesToNoteNames', t2), lambda v: v == t2)
    rep.family('metronome-note', 'the note value of a metronome mark is read back, whatever the value and its dots', notes, 200)

    ip.method_models[('MetronomeMark', 'getQuarterBPM')] = lambda ip_, o, a, k: o.attrs['__q__']
    for c in ('MetronomeMark', 'TempoText'):
        ip.method_models[(c, 'getTextExpression')] = lambda ip_, o, a, k: None if o.attrs['__t__'] is None else mk(
            ip_, 'music21.expressions.TextExpression', content=o.attrs['__t__'])

    def bpms():
        for bpm in (1, 9, 10, 40, 54, 60, 66, 99, 100, 120, 144, 208, 999, 59.6, 72.4, 90.5, 119.5):
            for txt in (None, 'Andante', 'a: b', 'a\nb', 'Presto'):
                def wr(cls='music21.tempo.MetronomeMark'):
                    o = mk(ip, cls, number=bpm, __q__=bpm, __t__=txt)
                    a, b = d(h.call('getMMTokenAndTempoTextFromM21TempoIndication', o))
                    return d(a), d(b)

                def rt():
                    a, b = wr()
                    t0 = h.tok(a)
                    n = d(ip.getattr(t0, 'tempoBPM'))
                    isT = d(ip.getattr(t0, 'isTempo'))
                    hf = reader()
                    m = d(h.meth(hf, '_createMetronomeMark', b, n)) if b else None
                    return (isT, n, None if m is None else d(m.attrs['number']), None if m is None else d(m.attrs['text']))
                r = int(bpm + 0.5)
                want = (True, r, r if txt else None, txt)
                judge(rep, ip, f'tempo {bpm} {txt!r}', 'M21Convert.getMMTokenAndTempoTextFromM21TempoIndication', rt,
                      lambda v: v == want, show=f'expected {want}')

                def nonum():
                    o = mk(ip, 'music21.tempo.MetronomeMark', number=None, __q__=None, __t__=txt)
                    return h.call('getMMTokenAndTempoTextFromM21TempoIndication', o)
                judge(rep, ip, f'tempo without number {txt!r}', 'M21Convert.getMMTokenAndTempoTextFromM21TempoIndication', nonum,
                      lambda v: v[0] == '' and (txt is None) == (v[1] == ''))
        for nm, ty in NOTES.items():
            for dots in (0, 1, 2):
                for pre in ('', 'Allegro', 'Poco adagio', 'Allegro M.M.'):
                    for num in ('60', '72.6', '120'):
                        for par in (False, True):
                            body = f'[{nm}{"-dot" * dots}] = {num}'
                            text = (pre + ' ' if pre else '') + (f'({body})' if par else body)

                            def rt():
                                m = d(h.meth(reader(), '_createMetronomeMark', text, 0))
                                ref = d(m.attrs['referent'])
                                return (d(m.attrs['number']), d(ref.attrs['type']), d(ref.attrs['dots']))
                            want = (int(float(num) + 0.5), ty, dots)
                            if par or dots == 0 or pre == '':
                                judge(rep, ip, f'metronome mark {text!r}', 'HumdrumFile._createMetronomeMark', rt,
                                      lambda v: v == want, show=f'expected {want}')
    model(ip, 'HumdrumFile', '_getMmTempo', lambda ip_, a, k: 0)
    model(ip, 'HumdrumFile', '_getMmTempoForward', lambda ip_, a, k: (0, None))
    rep.family('tempo', 'the number of beats per minute (rounded), the words and the beat unit of a tempo mark are read back', bpms, 150)

    def changes():
        for nm, v in (('_isNearHandledOmd', False), ('_hasTempoTextAfterMM', False), ('_isLastStaffTempo', True),
                      ('_getNearbyUnhandledOmdLine', None)):
            model(ip, 'HumdrumFile', nm, (lambda v: lambda ip_, a, k: v)(v))
        for tok, num, txt in (('*MM90', 90, None), ('*MM9', 9, None), ('*MM127.5', 128, None), ('*MM[Adagio]', None, 'Adagio'),
                              ('*MM[Poco adagio]', None, 'Poco adagio'), ('*MM120.2', 120, None), ('*M4/4', None, None),
                              ('*MM', None, None), ('*MMx', None, None), ('*MM[a&colon;b]', None, 'a:b')):
            for off in (0, 1.5):
                for ms, st in ((0, 0), (1, 1)):
                    def rt():
                        hf = reader()
                        ms_ = [[holder('Measure') for _ in range(2)] for _ in range(2)]
                        hf.attrs['_allMeasuresPerStaff'] = AList([AList(x) for x in ms_])
                        tk = h.tok(tok)
                        d(tk).attrs['__off__'] = off
                        h.meth(hf, '_handleTempoChange', ms, tk, st)
                        got = [(i, j, d(o), d(d(x).attrs['number']), d(d(x).attrs['text'])) for i in range(2) for j in range(2)
                               for o, x in ms_[i][j].attrs['__in__']]
                        return AList(got)
                    want = [] if num is None and txt is None else [(ms, st, off, num, txt)]
                    judge(rep, ip, f'{tok} at {off} in measure {ms} staff {st}', 'HumdrumFile._handleTempoChange', rt,
                          lambda v: v == want, show=f'expected {want}')
    rep.family('tempo-change', 'a tempo interpretation puts a metronome mark with its number or name where it stands', changes, 20)

    # ------------------------------------------------------------------ lyrics
    LY = ['la', 'a b', 'la-', '-la', '-la-', '!la', '*la', '!', '*', 'a_b', 'x|y', '"q"', 'a:b', '=x', 'é', "ma 'l", 'l-a', '(la)', 'La,', '1',
          'a b c', '\\x', 'o__', '[la]', '<la>', '?']

    def side():
        return ip.instantiate(ip.cls('GridSide'), [], {})
    ip.method_models[('Lyric', 'setTextAndSyllabic')] = lambda ip_, o, a, k: o.attrs.__setitem__('__raw__', a[0])
    ip.ctor_models['music21.note.Lyric'] = lambda ip_, c, a, k: mk(
        ip_, 'music21.note.Lyric', number=1, identifier=None, components=None, style=tstyle(), __raw__=None)
    labels_out = []
    ip.method_models[('GridMeasure', 'addVerseLabels')] = lambda ip_, o, a, k: labels_out.append(a[3])
    for at in ('isSpine', ):
        pass

    def write(lyrics):
        labels_out.clear()
        w = mk(ip, 'HumdrumWriter')
        sd = side()
        stf = mk(ip, 'GridStaff', sides=sd)
        sl = mk(ip, 'GridSlice', parts=AList([mk(ip, 'GridPart', staves=AList([stf]))]))
        ls = [mk(ip, 'music21.note.Lyric', number=n, rawText=x, identifier=n if i is None else i, text=x) for n, x, i in lyrics]
        ev = mk(ip, 'EventData', m21Object=h.note(lyrics=AList(ls)))
        f = ip.fn('HumdrumWriter', '_addLyrics')
        n = d(ip.call(FuncRef(f.node, f.mod, f.cls, w), [mk(ip, 'GridMeasure'), sl, 0, 0, ev], {}))
        toks = [d(x) for x in d(d(sd).attrs['_verses']).v]
        if n != len(toks):
            return None
        lab = [d(x) for x in d(labels_out[0]).v] if labels_out else [None] * n
        return toks, lab

    def read(toks, labels=None, kind='**text', marks=()):
        hf = h.file()
        hf.attrs['_staffStartsIndexByTrack'] = AList([-1, 0, -1, -1, -1, -1])
        hf.attrs['_spineColor'] = AList([AList(['', '', '']) for _ in range(8)])
        sg = d(hf.attrs['_signifiers'])
        sg.attrs.update(textMarks=AList([x for x, _ in marks]), textColors=AList([y for _, y in marks]))
        main = h.tok('4c')
        d(main).attrs.update(__track=1, __subTrack=0)
        ln = mk(ip, 'HumdrumLine', _tokens=AList([main] + toks))
        vl = []
        for i, tk in enumerate([main] + toks):
            o = d(tk)
            o.attrs.update({'__track': i + 1, '__subTrack': 0, '__dt__': '**kern' if i == 0 else kind, '__ln__': ln, '__fi__': i,
                            '__sp__': f'sp{i}'})
            if i and labels and labels[i - 1] is not None:
                lo = d(labels[i - 1])
                lo.attrs['__sp__'] = f'sp{i}'
                vl.append(labels[i - 1])
        ss = d(d(hf.attrs['_staffStates']).v[0])
        ss.attrs.update(hasLyrics=True, verseLabels=AList(vl))
        obj = h.note(lyrics=AList([]))
        h.meth(hf, '_convertVerses', obj, main)
        out = []
        for x in d(obj.attrs['lyrics']).v:
            x = d(x)
            cs = d(x.attrs['components'])
            raw = [d(x.attrs['__raw__'])] if cs is None else [d(d(c).attrs['__raw__']) for c in d(cs).v]
            out.append((d(x.attrs['number']), tuple(raw), d(x.attrs['identifier']), d(d(x.attrs['style']).attrs['color'])))
        return out
    ip.attr_models[('HumdrumToken', 'dataType')] = lambda ip_, o: mk(ip_, 'HumdrumToken', _text=o.attrs.get('__dt__', '**kern'))
    ip.attr_models[('HumdrumToken', 'isKern')] = lambda ip_, o: o.attrs.get('__dt__', '**kern') == '**kern'
    ip.attr_models[('HumdrumToken', 'ownerLine')] = lambda ip_, o: o.attrs['__ln__']
    ip.attr_models[('HumdrumToken', 'fieldIndex')] = lambda ip_, o: o.attrs['__fi__']
    ip.attr_models[('HumdrumToken', 'spineInfo')] = lambda ip_, o: o.attrs['__sp__']

    def split(x):
        out = ['']
        for i, c in enumerate(x):
            if c == ' ' and 0 < i < len(x) - 1 and x[i + 1] != "'":
                out.append('')
            else:
                out[-1] += c
        return tuple(out)

    def lyrics():
        cases = [[(1, x, None)] for x in LY]
        cases += [[(1, x, l)] for x in ('la', '!la') for l in ('Ref.', '(', '+', 'd', 'v1', 'a:b', '*', '1.', 'x y', '[')]
        cases += [[(1, 'a', None), (2, 'b', None)], [(2, 'b', None)], [(1, 'a', None), (3, 'c', None)], [(3, 'c', None)],
                  [(1, 'a', None), (2, 'b', None), (3, 'c', None)], [(2, 'b', None), (1, 'a', None)],
                  [(3, 'c', None), (1, 'a', None), (2, 'b', None)], [(1, 'a', 'x'), (2, 'b', 'y')], [(1, 'a', None), (2, 'b', 'y')],
                  [(1, 'a', 'x'), (3, 'c', 'y')], [(2, 'b b', 'x'), (1, '!a', None)], [(4, 'd', None), (2, 'b', 'q')]]
        for ls in cases:
            def rt():
                r = write(ls)
                if r is None:
                    return None
                toks, lab = r
                return AList(read(toks, lab))
            want = sorted((n, split(x), i, None) for n, x, i in ls)
            judge(rep, ip, f'lyrics {ls}', 'HumdrumFile._convertVerses', rt, lambda v: sorted(v) == want, show=f'expected {want}')
    rep.family('lyric', 'every lyric is read back with its text (elisions as separate syllables), verse number and label', lyrics, 35)

    def marks():
        for mark in ('+', '(', '.', '@', '*', '$', 'N'):
            for txt in ('la', 'la-', 'l'):
                def rt():
                    return AList(read([h.tok(txt + mark)], None, marks=((mark, 'red'),)))
                judge(rep, ip, f'marked lyric {txt}{mark}', 'HumdrumFile._colorVerse', rt, lambda v: v == [(1, (txt,), None, 'red')])

            def un():
                return AList(read([h.tok('la')], None, marks=((mark, 'red'),)))
            judge(rep, ip, f'unmarked lyric with mark {mark}', 'HumdrumFile._colorVerse', un, lambda v: v == [(1, ('la',), None, None)])

            def alone():
                return AList(read([h.tok(mark)] if mark not in '.*' else [h.tok('x' + mark)], None, marks=((mark, 'red'),)))
            judge(rep, ip, f'lyric that is only the mark {mark}', 'HumdrumFile._convertVerses', alone, lambda v: len(v) <= 1)
        for kind, txt, want in (('**silbe', 'la', 'la'), ('**silbe', 'fu2r', 'für'), ('**vdata', 'a b', 'a b'), ('**vdata-x', '-a', '-a'),
                                ('**text', 'la', 'la')):
            judge(rep, ip, f'{kind} {txt}', 'HumdrumFile._convertVerses', lambda: AList(read([h.tok(txt)], None, kind)),
                  lambda v: v == [(1, (want,), None, None)])
        judge(rep, ip, 'null lyric', 'HumdrumFile._convertVerses', lambda: AList(read([h.tok('.'), h.tok('b')])),
              lambda v: v == [(2, ('b',), None, None)])
        judge(rep, ip, 'silbe line', 'HumdrumFile._convertVerses', lambda: AList(read([h.tok('|'), h.tok('b')], None, '**silbe')),
              lambda v: v == [(2, ('b',), None, None)])
    rep.family('marked-lyric', 'marked lyrics get the color of the mark and lose the mark, others are unaffected', marks, 30)

    # ------------------------------------------------------------------ global records are single tokens
    def single():
        ST = ip.cls('SliceType')
        for kind, txt in (('ReferenceRecords', '!!!OMD: Largo'), ('GlobalLayouts', '!!LO:TX:omd:t=x'), ('GlobalComments', '!!x')):
            for nv in (1, 2, 3):
                for parts in (1, 2):
                    for recip in (False, True):
                        def rt():
                            out = []
                            def vs(first):
                                return AList([mk(ip, 'GridVoice', token=h.tok(txt if first and i == 0 else '!!')) for i in range(nv)])
                            ps = AList([mk(ip, 'GridPart', staves=AList([mk(ip, 'GridStaff', voices=vs(p == 0))])) for p in range(parts)])
                            g = mk(ip, 'GridSlice', sliceType=ip.getattr(ST, kind), parts=ps)
                            g.attrs['_sliceType'] = g.attrs['sliceType']
                            f = ip.fn('GridSlice', 'transferTokens')
                            hf = mk(ip, 'HumdrumFile', __out__=out)
                            ip.call(FuncRef(f.node, f.mod, f.cls, g), [hf, recip], {})
                            return tuple(d(ip.getattr(t_, 'text')) for t_ in d(d(out[0]).attrs['_tokens']).v)
                        ip.method_models[('HumdrumFile', 'appendLine')] = lambda ip_, o, a, k: o.attrs['__out__'].append(a[0])
                        judge(rep, ip, f'{kind} {nv} voices {parts} parts recip {recip}', 'GridSlice.transferTokens', rt,
                              lambda v: v == (txt,))
    rep.family('global-record', 'a global record is written as exactly one token, whatever voices and parts surround it', single, 10)
    rep.use(ip)
