"""C06: notations on notes, spanners, lyrics and text directions survive MEI write -> read."""
from __future__ import annotations
import itertools
from props.common import *
from props.meih import MEI, NS, ALTER

EXPLANATION = (
    'Constant-propagation abstract interpretation of the MEI writer for articulations, stems, noteheads, styles, fermatas, '
    'ornaments, arpeggios, slurs, ties, ottavas, hairpins, beams across barlines, lyrics and text directions; the abstract '
    'elements it builds are placed in an abstract document, preprocessed and read by the MEI reader.  Oracle: what is read '
    'back equals what was written.')

WP = 'M21ObjectConvert.%s / MeiReader.%s'


def run(rep):
    ip = new_ip(max_steps=400000)
    M = MEI(ip)
    M.install()
    d = ip.deref
    E = M.E
    counter = itertools.count()
    ip.models['uuid.uuid4'] = lambda ip_, a, k: f'uuid{next(counter)}'
    for f in ('extendCustomM21Attributes',):
        model(ip, 'M21Utilities', f, lambda ip_, a, k: None)
    model(ip, 'M21Utilities', 'm21PedalMarksSupported', lambda ip_, a, k: False)

    # ---------------------------------------------------------------- models
    def bundle():
        return mk(ip, 'music21.spanner.SpannerBundle', __sp__=AList([]))
    ip.ctor_models['music21.spanner.SpannerBundle'] = lambda ip_, c, a, k: bundle()
    ip.method_models[('SpannerBundle', 'append')] = lambda ip_, o, a, k: o.attrs['__sp__'].v.append(a[0])
    ip.method_models[('SpannerBundle', 'getByIdLocal')] = lambda ip_, o, a, k: AList(
        [s for s in o.attrs['__sp__'].v if d(d(s).attrs.get('idLocal')) == d(a[0])])

    def add_spanned(ip_, o, a, k):
        for x in a:
            x = d(x)
            o.attrs['__els__'].v.extend(x.v if isinstance(x, AList) else [x])
    els = lambda o: o.attrs['__els__'].v
    for c in ('Spanner', 'Slur', 'Ottava', 'Crescendo', 'Diminuendo', 'DynamicWedge', 'TrillExtension', 'ArpeggioMarkSpanner',
              'M21TieSpanner', 'M21BeamSpanner', 'M21TupletSpanner'):
        ip.method_models[(c, 'addSpannedElements')] = add_spanned
        ip.method_models[(c, 'getFirst')] = lambda ip_, o, a, k: els(o)[0] if els(o) else None
        ip.method_models[(c, 'getLast')] = lambda ip_, o, a, k: els(o)[-1] if els(o) else None
        ip.method_models[(c, 'getSpannedElements')] = lambda ip_, o, a, k: AList(list(els(o)))
    SP = {'Slur': 'spanner', 'Ottava': 'spanner', 'Crescendo': 'dynamics', 'Diminuendo': 'dynamics', 'TrillExtension': 'expressions',
          'ArpeggioMarkSpanner': 'expressions'}

    def sp(name, *members, **kw):
        at = dict(__els__=AList(list(members)), placement=None, idLocal=None)
        if name in ('Slur',):
            at['style'] = M.nstyle('Style')
        at.setdefault('style', M.nstyle('TextStyle'))
        at['hasStyleInformation'] = True
        at.update(kw)
        q = f'music21.{SP[name]}.{name}' if name in SP else name
        o = mk(ip, q, **at)
        o.absent = {'mei_trill_already_handled', 'mei_beam', 'mei_tuplet', 'meireader_staff'}
        return o
    for name, mod in SP.items():
        def ct(ip_, c, a, k, name=name):
            o = sp(name)
            if name == 'Ottava':
                o.attrs.update(type=d(k.get('type', '8va')), placement='above')
            if name == 'ArpeggioMarkSpanner':
                o.attrs['type'] = d(k.get('arpeggioType', a[0] if a else 'normal'))
            if name in ('Crescendo', 'Diminuendo'):
                o.attrs['placement'] = 'below'
            return o
        ip.ctor_models[f'music21.{mod}.{name}'] = ct

    def expr(cname, **kw):
        q = 'music21.expressions.' + cname
        at = dict(placement='above', style=M.nstyle('TextStyle'), hasStyleInformation=False)
        if 'Trill' in cname:
            at.update(direction='up', accidental=None)
        if cname in ('Mordent', 'InvertedMordent'):
            at.update(direction='up' if cname[0] == 'I' else 'down', accidental=None)
        if 'Turn' in cname:
            at.update(isDelayed=False, upperAccidental=None, lowerAccidental=None)
        if cname == 'Fermata':
            at.update(type='upright', shape='normal', placement=None)
        if cname == 'ArpeggioMark':
            at.update(type='normal')
            at.pop('placement')
        at.update(kw)
        o = mk(ip, q, **at)
        o.absent = {'mei_trill_already_handled'} | ({'placement'} if cname == 'ArpeggioMark' else set())
        return o
    for c in ('Trill', 'Mordent', 'InvertedMordent', 'Fermata'):
        ip.ctor_models['music21.expressions.' + c] = lambda ip_, cc, a, k, c=c: expr(c)
    for c in ('Turn', 'InvertedTurn'):
        def tc(ip_, cc, a, k, c=c):
            dl = d(k.get('delay'))
            nm = getattr(dl, 'name', None) or (dl.attrs.get('name') if isinstance(dl, Obj) else None)
            delayed = False if dl is None or nm == 'NO_DELAY' else True if nm == 'DEFAULT_DELAY' else Unk('delay')
            return expr(c, isDelayed=delayed, upperAccidental=k.get('upperAccidental'), lowerAccidental=k.get('lowerAccidental'))
        ip.ctor_models['music21.expressions.' + c] = tc
    ip.ctor_models['music21.expressions.ArpeggioMark'] = lambda ip_, c, a, k: expr(
        'ArpeggioMark', type=d(k.get('arpeggioType', a[0] if a else None)) or 'normal')

    it = mk(ip, 'music21.stream.iterator.StreamIterator')
    ip.method_models[('Measure', 'recurse')] = lambda ip_, o, a, k: it
    ip.method_models[('StreamIterator', 'getElementsByOffset')] = lambda ip_, o, a, k: it
    ip.method_models[('StreamIterator', 'getElementsByClass')] = lambda ip_, o, a, k: AList([])
    for c in ('Note', 'Chord', 'Rest', 'Dynamic', 'TextExpression', 'RehearsalMark', 'Fermata', 'Barline'):
        ip.method_models[(c, 'getOffsetInHierarchy')] = lambda ip_, o, a, k: o.attrs.get('__off__', 0.0)
    meas = lambda: mk(ip, 'music21.stream.Measure')
    score = lambda: mk(ip, 'music21.stream.Score')
    model(ip, 'M21Utilities', 'getActiveTimeSigFromMeterStream', lambda ip_, a, k: mk(
        ip, 'music21.meter.base.TimeSignature', denominator=4, numerator=4))

    def pitch(step='C', o=4):
        return mk(ip, 'music21.pitch.Pitch', step=step, octave=o, accidental=None)

    def nt(xid=None, cls='Note', ql=1, **kw):
        dur = M.dur(ql)
        if cls == 'Chord':
            a, b = (M.gn('music21.note.Note', pitch=pitch(s), duration=dur, __styled__=False, pitches=(pitch(s),)) for s in 'CE')
            n = M.gn('music21.chord.Chord', notes=(a, b), duration=dur, __styled__=False, **kw)
            n.attrs['pitches'] = (a.attrs['pitch'], b.attrs['pitch'])
        elif cls == 'Rest':
            n = M.gn('music21.note.Rest', duration=dur, __styled__=False, **kw)
            n.absent = n.absent | {'mei_oloc', 'mei_ploc'}
        else:
            n = M.gn('music21.note.Note', pitch=pitch(), duration=dur, __styled__=False, **kw)
            n.attrs['pitches'] = (n.attrs['pitch'],)
        if xid:
            n.attrs['__xmlid__'] = xid
        return n

    WR = {'Note': 'm21NoteToMei', 'Chord': 'm21ChordToMei', 'Rest': 'm21RestToMei'}
    RD = {'note': 'noteFromElement', 'chord': 'chordFromElement', 'rest': 'restFromElement', 'space': 'spaceFromElement'}

    def wr(n):
        tb = M.tb()
        M.w(WR[d(n).cname], n, bundle(), tb)
        return M.built(tb)

    def mark(fn, *a):
        tb = M.tb()
        M.w(fn, *a, tb)
        return M.built(tb)

    def doc(notes, marks):
        return E('mei', {}, E('music', {}, E('body', {}, E('mdiv', {}, E('score', {}, E('section', {}, E(
            'measure', {'n': '1'}, E('staff', {'n': '1'}, E('layer', {'n': '1'}, *notes)), *marks)))))))

    def read(notes, marks, pps):
        rd = M.reader(documentRoot=doc(notes, marks), spannerBundle=bundle())
        for p in pps:
            M.r(rd, p)
        M.r(rd, '_ppConclude')
        return rd, [d(M.r(rd, RD[M.tag(e)], e)) for e in notes]

    L = lambda v: list(d(v).v)
    nm = lambda a: None if d(a) is None else d(d(a).attrs['name'])

    # ---------------------------------------------------------------- articulations
    def camel(n):
        return ''.join((' ' if i and ch.isupper() else '') + ch.lower() for i, ch in enumerate(n))
    ARTS = ['Accent', 'Staccato', 'Tenuto', 'Staccatissimo', 'Spiccato', 'DownBow', 'UpBow', 'Harmonic', 'SnapPizzicato',
            'StrongAccent', 'Doit', 'Plop', 'Falloff', 'Stopped', 'OpenString', 'DoubleTongue', 'TripleTongue', 'OrganToe',
            'OrganHeel']

    def art(c, place=None):
        o = mk(ip, 'music21.articulations.' + c, name=camel(c), placement=place, hasStyleInformation=False,
               style=M.nstyle('Style'))
        return o
    for c in ARTS:
        ip.ctor_models['music21.articulations.' + c] = lambda ip_, cc, a, k, c=c: art(c)

    def artics():
        combos = [(c,) for c in ARTS] + [(a, b) for a in ARTS for b in ('Staccato', 'Accent', 'Tenuto')]
        for cls in ('Note', 'Chord'):
            for combo in combos:
                for place in (None, 'above', 'below'):
                    if len(combo) > 1 and (place == 'above' or cls == 'Chord' and combo[1] != 'Accent'):
                        continue

                    def rt():
                        n = nt(cls=cls, articulations=AList([art(c, place if i == 0 else None) for i, c in enumerate(combo)]))
                        e = wr(n)
                        _, (r,) = read([e], [], [])
                        return [(d(x).cname, d(d(x).attrs['placement'])) for x in L(r.attrs['articulations'])]
                    want = [(c, place if i == 0 else None) for i, c in enumerate(combo)]
                    judge(rep, ip, f'{cls} {"+".join(combo)} placed {place}', WP % ('m21ArticulationsToMei', 'articFromElement'), rt,
                          lambda v: v == want)
    rep.family('articulation', 'every articulation MEI can express, alone and in pairs, with its placement, survives on notes and '
               'chords', artics, 120)

    def artic_attr():
        table = {'acc': 'Accent', 'stacc': 'Staccato', 'ten': 'Tenuto', 'stacciss': 'Staccatissimo', 'marc': 'StrongAccent',
                 'spicc': 'Spiccato', 'doit': 'Doit', 'plop': 'Plop', 'fall': 'Falloff', 'dnbow': 'DownBow', 'upbow': 'UpBow',
                 'harm': 'Harmonic', 'snap': 'SnapPizzicato', 'stop': 'Stopped', 'open': 'OpenString',
                 'dbltongue': 'DoubleTongue', 'trpltongue': 'TripleTongue', 'toe': 'OrganToe', 'heel': 'OrganHeel'}
        words = list(table) + ['marc-stacc', 'ten-stacc']
        ex = lambda w: {'marc-stacc': ['StrongAccent', 'Staccato'], 'ten-stacc': ['Tenuto', 'Staccato']}.get(w) or [table[w]]
        for w1 in words:
            for w2 in (None, 'stacc', 'ten'):
                s = w1 if w2 is None else f'{w1} {w2}'
                for cls, tag in (('note', {'pname': 'c', 'oct': '4', 'dur': '4'}), ('chord', {'dur': '4'})):
                    def th():
                        kids = [] if cls == 'note' else [E('note', {'pname': 'c', 'oct': '4'})]
                        _, (r,) = read([E(cls, dict(tag, artic=s), *kids)], [], [])
                        return [d(x).cname for x in L(r.attrs['articulations'])]
                    judge(rep, ip, f'{cls} artic="{s}"', 'MeiReader._makeArticList', th,
                          lambda v: v == ex(w1) + (ex(w2) if w2 else []))
    rep.family('articulation-attribute', 'the artic attribute of a note or chord, with any number of names, is read', artic_attr, 60)

    # ---------------------------------------------------------------- styles of notes
    def styles():
        heads = ['normal', 'cross', 'diamond', 'triangle', 'rectangle', 'slash', 'square', 'x']
        stems = ['unspecified', 'up', 'down', 'noStem']
        for cls in ('Note', 'Chord', 'Rest', 'ChordNote'):
            for head in (heads if cls in ('Note', 'ChordNote') else ['normal']):
                for stem in (stems if cls in ('Note', 'Chord') else ['unspecified']):
                    for hide, color, cue in ((0, None, 0), (1, None, 0), (0, 'red', 0), (0, '#00ff00', 1), (1, 'blue', 1)):
                        if (head != 'normal' and stem != 'unspecified' and color) or (cls == 'Rest' and hide and color):
                            continue

                        def rt():
                            n = nt(cls='Chord' if cls == 'ChordNote' else cls)
                            o = n.attrs['notes'][1] if cls == 'ChordNote' else n
                            if cls in ('Note', 'ChordNote'):
                                o.attrs['notehead'] = head
                            o.attrs['stemDirection'] = stem
                            o.attrs['__styled__'] = True
                            o.attrs['style'] = M.nstyle(hideObjectOnPrint=bool(hide), color=color,
                                                        noteSize='cue' if cue else None)
                            _, (r,) = read([wr(n)], [], [])
                            if cls == 'ChordNote':
                                if d(d(r.attrs['notes'][0]).attrs['notehead']) != 'normal':
                                    return 'the other note changed'
                                r = d(r.attrs['notes'][1])
                            st = d(r.attrs['style'])
                            return (d(r.attrs['notehead']) if head != 'normal' else 'normal', d(r.attrs['stemDirection']),
                                    d(st.attrs['hideObjectOnPrint']), d(st.attrs['color']), d(st.attrs['noteSize']))
                        judge(rep, ip, f'{cls} head={head} stem={stem} hidden={hide} color={color} cue={cue}',
                              WP % ('_addStylisticAttributes', 'noteFromElement/chordFromElement/restFromElement'), rt,
                              lambda v: v == (head, stem, bool(hide), color, 'cue' if cue else None))
    rep.family('note-style', 'stem direction, notehead, color, cue size and invisibility survive on notes, rests, chords and notes '
               'in chords', styles, 90)

    # ---------------------------------------------------------------- fermatas
    def fermatas():
        for cls in ('Note', 'Chord', 'Rest'):
            for typ in ('upright', 'inverted'):
                for shape in ('normal', 'square', 'angled'):
                    for place in ('above', 'below'):
                        def rt():
                            n = nt('n1', cls)
                            f = expr('Fermata', type=typ, shape=shape, placement=place)
                            e = mark('fermataToMei', n, f, '1', score(), meas(), AList([]))
                            _, (r,) = read([wr(n)], [e], ['_ppFermatas'])
                            x = L(r.attrs['expressions'])
                            if len(x) != 1:
                                return len(x)
                            a = d(x[0]).attrs
                            return d(x[0]).cname, d(a['type']), d(a['shape']), d(a['placement'])
                        judge(rep, ip, f'{cls} fermata {typ} {shape} {place}', WP % ('fermataToMei', '_ppFermatas'), rt,
                              lambda v: v == ('Fermata', typ, shape, place))
        for typ in ('upright', 'inverted'):
            for shape in ('normal', 'square', 'angled'):
                for place in ('above', 'below'):
                    def rt():
                        b = mk(ip, 'music21.bar.Barline', __off__=4.0, hasStyleInformation=False)
                        f = expr('Fermata', type=typ, shape=shape, placement=place)
                        e = mark('fermataToMei', b, f, '1', score(), meas(), AList([]))
                        rd = M.reader(documentRoot=doc([], [e]), spannerBundle=bundle(), activeMeter=mk(
                            ip, 'music21.meter.base.TimeSignature', denominator=4, numerator=4))
                        M.r(rd, '_ppFermatas')
                        staff, offs, r = d(M.r(rd, 'fermataFromElement', e))
                        a = d(r).attrs
                        return staff, d(d(offs)[0]), d(a['type']), d(a['shape']), d(a['placement'])
                    judge(rep, ip, f'barline fermata {typ} {shape} {place}', WP % ('fermataToMei', 'fermataFromElement'), rt,
                          lambda v: v == ('1', 4.0, typ, shape, place))
    rep.family('fermata', 'the type, shape and placement of a fermata survive on notes, chords, rests and barlines', fermatas, 44)

    # ---------------------------------------------------------------- ornaments
    ACC = [None, ('sharp', True), ('flat', True), ('natural', True), ('double-sharp', True), ('sharp', False)]

    def ac(x):
        return None if x is None else M.accid(x[0], x[1])

    def shown(x):
        return x[0] if x is not None and x[1] else None

    def ornaments():
        for cls in ('Note', 'Chord'):
            for c, up in (('Trill', True), ('InvertedMordent', True), ('Mordent', False)):
                for a in ACC:
                    for place in ('above', 'below', None):
                        def rt():
                            n = nt('n1', cls)
                            o = expr(c, accidental=ac(a), placement=place)
                            if c == 'Trill':
                                e = mark('trillToMei', n, o, '1', score(), meas(), AList([]), ADict({}), bundle())
                            else:
                                e = mark('mordentToMei', n, o, '1', score(), meas(), AList([]))
                            at = M.attrs(e)
                            _, (r,) = read([wr(n)], [e], ['_ppTrills', '_ppMordents'])
                            x = L(r.attrs['expressions'])
                            if len(x) != 1:
                                return len(x)
                            q = d(x[0]).attrs
                            acc = d(q['accidental'])
                            wrong = ('accidlower' if up else 'accidupper') in at
                            return d(x[0]).cname, nm(acc), True if acc is None else d(acc.attrs['displayStatus']), d(q['placement']), wrong
                        judge(rep, ip, f'{cls} {c} {a} {place}', WP % ('trillToMei/mordentToMei', 'addTrill/addMordent'), rt,
                              lambda v: v == (c, shown(a), True, place, False))
            for c in ('Turn', 'InvertedTurn'):
                for a in ACC:
                    for b in ACC:
                        for place, delayed in (('above', False), ('below', True), (None, False), ('above', True)):
                            if (a and b and a != b and cls == 'Chord') or (a and b and place is None):
                                continue

                            def rt():
                                n = nt('n1', cls)
                                o = expr(c, upperAccidental=ac(a), lowerAccidental=ac(b), placement=place, isDelayed=delayed)
                                e = mark('turnToMei', n, o, '1', score(), meas(), AList([]))
                                _, (r,) = read([wr(n)], [e], ['_ppTurns'])
                                x = L(r.attrs['expressions'])
                                if len(x) != 1:
                                    return len(x)
                                q = d(x[0]).attrs
                                return (d(x[0]).cname, nm(q['upperAccidental']), nm(q['lowerAccidental']), d(q['placement']),
                                        d(q['isDelayed']))
                            judge(rep, ip, f'{cls} {c} upper={a} lower={b} {place} delayed={delayed}', WP % ('turnToMei', 'addTurn'), rt,
                                  lambda v: v == (c, shown(a), shown(b), place, delayed))
    rep.family('ornament', 'trills, mordents and turns survive with direction, shown accidentals, placement and delay', ornaments, 250)

    def ornaments_tstamp():
        for tag, fn, c, at in (('trill', 'trillFromElement', 'Trill', {}), ('mordent', 'mordentFromElement', 'Mordent', {'form': 'lower'}),
                               ('mordent', 'mordentFromElement', 'InvertedMordent', {'form': 'upper'}),
                               ('turn', 'turnFromElement', 'Turn', {'form': 'upper'}),
                               ('turn', 'turnFromElement', 'Turn', {}),
                               ('turn', 'turnFromElement', 'InvertedTurn', {'form': 'lower'}),
                               ('turn', 'turnFromElement', 'Turn', {'form': 'upper', 'delayed': 'true'}),
                               ('turn', 'turnFromElement', 'InvertedTurn', {'form': 'lower', 'delayed': 'true'})):
            for place in ('above', 'below', None):
                for staff in ('1', '2'):
                    for ts, off in (('1', 0.0), ('2.5', 1.5), ('4', 3.0)):
                        def th():
                            a = dict(at, staff=staff, tstamp=ts)
                            if place:
                                a['place'] = place
                            e = E(tag, a)
                            rd = M.reader(documentRoot=doc([], [e]), spannerBundle=bundle(), activeMeter=mk(
                                ip, 'music21.meter.base.TimeSignature', denominator=4, numerator=4))
                            M.r(rd, {'trill': '_ppTrills', 'mordent': '_ppMordents', 'turn': '_ppTurns'}[tag])
                            out = L(M.r(rd, fn, e))
                            if len(out) != 1:
                                return len(out)
                            s, offs, o = d(out[0])
                            o = d(o)
                            return (s, d(d(offs)[0]), o.cname, d(o.attrs['placement']), d(o.attrs.get('isDelayed', False)))
                        judge(rep, ip, f'{c} {at} at {ts} staff {staff} {place}', 'MeiReader.' + fn, th,
                              lambda v: v == (staff, off, c, place, 'delayed' in at))
    rep.family('ornament-timestamp', 'ornaments placed by a time stamp are read at that offset on that staff', ornaments_tstamp, 100)

    # ---------------------------------------------------------------- arpeggios
    def arpeggios():
        for typ in ('normal', 'up', 'down', 'non-arpeggio'):
            for cls in ('Chord', 'Note'):
                def rt():
                    n = nt('n1', cls)
                    e = mark('arpeggioMarkToMei', n, expr('ArpeggioMark', type=typ), '1', score(), meas(), AList([]))
                    _, (r,) = read([wr(n)], [e], ['_ppArpeggios'])
                    return [(d(x).cname, d(d(x).attrs['type'])) for x in L(r.attrs['expressions'])]
                judge(rep, ip, f'{cls} arpeggio {typ}', WP % ('arpeggioMarkToMei', '_ppArpeggios'), rt,
                      lambda v: v == [('ArpeggioMark', typ)])
            for k in (2, 3):
                def rt():
                    ns = [nt(f'n{i}', 'Chord') for i in range(k)]
                    s = sp('ArpeggioMarkSpanner', *ns, type=typ)
                    s.attrs['hasStyleInformation'] = False
                    s.absent = s.absent | {'placement'}
                    s.attrs.pop('placement')
                    e = mark('postStavesSpannerToMei', s, '1', score(), meas(), AList([]), ADict({}), bundle())
                    rd, rs = read([wr(n) for n in ns], [e], ['_ppArpeggios'])
                    sps = L(rd.attrs['spannerBundle'].attrs['__sp__'])
                    return [(d(x).cname, d(d(x).attrs['type']), [rs.index(d(y)) for y in els(d(x))]) for x in sps]
                judge(rep, ip, f'arpeggio {typ} across {k} staves', WP % ('fillInArpeggioAttributes', '_ppArpeggios'), rt,
                      lambda v: v == [('ArpeggioMarkSpanner', typ, list(range(k)))])
    rep.family('arpeggio', 'every arpeggio type survives, on one chord and across several', arpeggios, 14)

    # ---------------------------------------------------------------- spanners
    def spanners():
        cases = []
        for place in (None, 'above', 'below'):
            cases.append(('Slur', dict(placement=place), ['_ppSlurs'], ('Slur', place, None)))
        for ty in ('8va', '8vb', '15ma', '15mb', '22da', '22db'):
            cases.append(('Ottava', dict(type=ty, placement='above', transposing=True), ['_ppOctaves'], ('Ottava', None, ty)))
        for cls in ('Note', 'Chord'):
            for name, kw, pps, want in cases:
                for i, j, n in ((0, 1, 2), (0, 2, 3), (1, 2, 3)):
                    def rt():
                        ns = [nt(f'n{x}', cls) for x in range(n)]
                        s = sp(name, ns[i], ns[j], **kw)
                        e = mark('postStavesSpannerToMei', s, '1', score(), meas(), AList([]), ADict({}), bundle())
                        rd, rs = read([wr(x) for x in ns], [e], pps)
                        sps = L(rd.attrs['spannerBundle'].attrs['__sp__'])
                        return [(d(x).cname, None if name == 'Ottava' else d(d(x).attrs['placement']),
                                 d(d(x).attrs.get('type')), [rs.index(d(y)) for y in els(d(x))]) for x in sps]
                    judge(rep, ip, f'{name} {kw} on {cls} {i}-{j} of {n}', WP % ('postStavesSpannerToMei', pps[0]), rt,
                          lambda v: v == [(want[0], want[1], want[2], [i, j])])
        # two slurs that share a note
        for a, b in (((0, 1), (1, 2)), ((0, 2), (0, 1)), ((0, 2), (1, 2))):
            def rt():
                ns = [nt(f'n{x}') for x in range(3)]
                es = [mark('postStavesSpannerToMei', sp('Slur', ns[i], ns[j], placement=p), '1', score(), meas(), AList([]), ADict({}),
                           bundle()) for (i, j), p in ((a, 'above'), (b, 'below'))]
                rd, rs = read([wr(x) for x in ns], es, ['_ppSlurs'])
                return [(d(d(x).attrs['placement']), [rs.index(d(y)) for y in els(d(x))])
                        for x in L(rd.attrs['spannerBundle'].attrs['__sp__'])]
            judge(rep, ip, f'slurs {a} and {b}', WP % ('postStavesSpannerToMei', '_ppSlurs'), rt,
                  lambda v: v == [('above', list(a)), ('below', list(b))])
        # slur attributes
        for pat, want in ((('i1', 't1', None), [[0, 1]]), (('i1', 'm1', 't1'), [[0, 2]]), (('i1', 't1 i1', 't1'), [[0, 1], [1, 2]]),
                          (('i1 i2', 't2', 't1'), [[0, 2], [0, 1]]), (('i1', 'i2 t1', 't2'), [[0, 1], [1, 2]])):
            def th():
                ns = [E('note', dict({'pname': 'c', 'oct': '4', 'dur': '4'}, **({'slur': s} if s else {}))) for s in pat]
                rd, rs = read(ns, [], [])
                return [[rs.index(d(y)) for y in els(d(x))] for x in L(rd.attrs['spannerBundle'].attrs['__sp__'])]
            if pat == ('i1', 't1 i1', 't1'):
                continue     # the same slur number used twice: the cache of the bundle decides
            judge(rep, ip, f'slur attributes {pat}', 'MeiReader.addSlurs', th, lambda v: sorted(v) == sorted(want))
        for up, cname in ((True, 'Crescendo'), (False, 'Diminuendo')):
            for place, av in ((None, None), ('above', None), ('below', None), ('below', 'middle')):
                def rt():
                    ns = [nt('n0'), nt('n1')]
                    s = sp(cname, *ns, placement=place)
                    s.attrs['style'] = M.nstyle('TextStyle', alignVertical=av)
                    e = mark('postStavesSpannerToMei', s, '1', score(), meas(), AList([]), ADict({}), bundle())
                    rd, rs = read([wr(x) for x in ns], [e], ['_ppHairpins'])
                    x = d(L(rd.attrs['spannerBundle'].attrs['__sp__'])[0])
                    st = d(x.attrs['style'])
                    return (x.cname, d(x.attrs['placement']), d(st.attrs.get('alignVertical')), [rs.index(d(y)) for y in els(x)],
                            M.attrs(e).get('tstamp2'), M.attrs(e).get('endid'))
                judge(rep, ip, f'{cname} {place} {av}', WP % ('postStavesSpannerToMei', '_ppHairpins'), rt,
                      lambda v: v == (cname, place or 'below', av, [0], '0m+1.25', None))
    model(ip, 'M21ObjectConvert', 'makeTstamp2FromScoreOffset', lambda ip_, a, k: '0m+1.25')
    rep.family('spanner', 'slurs, ottavas and hairpins survive with their end points, kind and placement', spanners, 50)

    def trill_ext():
        for place in (None, 'above', 'below'):
            for k in (1, 2):
                def rt():
                    ns = [nt(f'n{x}') for x in range(3)]
                    s = sp('TrillExtension', ns[0], ns[k], placement=place)
                    ns[0].attrs['__spanners__'] = AList([s])
                    o = expr('Trill', placement=place)
                    e = mark('trillToMei', ns[0], o, '1', score(), meas(), AList([]), ADict({}), bundle())
                    for n in ns:
                        n.attrs.pop('__spanners__', None)
                    rd, rs = read([wr(n) for n in ns], [e], ['_ppTrills'])
                    sps = L(rd.attrs['spannerBundle'].attrs['__sp__'])
                    return ([d(x).cname for x in L(rs[0].attrs['expressions'])],
                            [(d(x).cname, d(d(x).attrs['placement']), [rs.index(d(y)) for y in els(d(x))]) for x in sps])
                judge(rep, ip, f'trill with extension to note {k} {place}', WP % ('trillToMei', '_ppTrills'), rt,
                      lambda v: v == (['Trill'], [('TrillExtension', place, [0, k])]))
    rep.family('trill-extension', 'the wavy line of a trill survives with its end point and placement', trill_ext, 6)

    # ---------------------------------------------------------------- ties
    ip.ctor_models['music21.tie.Tie'] = lambda ip_, c, a, k: mk(ip, 'music21.tie.Tie', type=d(a[0]) if a else d(k.get('type', 'start')))

    def ties():
        for pairs in ([(0, 1)], [(0, 1), (1, 2)], [(1, 2), (0, 1)], [(1, 2)], [(0, 1), (2, 3)], [(0, 1), (1, 2), (2, 3)],
                      [(2, 3), (1, 2), (0, 1)]):
            n = 4

            def rt():
                ns = [nt(f'n{x}') for x in range(n)]
                es = []
                for i, j in pairs:
                    s = sp('M21TieSpanner', ns[i], ns[j], startTie=mk(ip, 'music21.tie.Tie', style='normal', placement=None, type='start'))
                    s.attrs['hasStyleInformation'] = False
                    es.append(mark('postStavesSpannerToMei', s, '1', score(), meas(), AList([]), ADict({}), bundle()))
                _, rs = read([wr(x) for x in ns], es, ['_ppTies'])
                return [None if d(r.attrs['tie']) is None else d(d(r.attrs['tie']).attrs['type']) for r in rs]
            st, en = {i for i, _ in pairs}, {j for _, j in pairs}
            want = ['continue' if x in st and x in en else 'start' if x in st else 'stop' if x in en else None for x in range(n)]
            judge(rep, ip, f'ties {pairs}', WP % ('postStavesSpannerToMei', '_ppTies'), rt, lambda v: v == want)
        for s, want in (('i', 'start'), ('m', 'continue'), ('t', 'stop'), ('ti', 'continue'), ('it', 'continue'), ('i1', 'start')):
            def th():
                _, (r,) = read([E('note', {'pname': 'c', 'oct': '4', 'dur': '4', 'tie': s})], [], [])
                return d(d(r.attrs['tie']).attrs['type'])
            judge(rep, ip, f'tie="{s}"', 'MeiReader._tieFromAttr', th, lambda v: v == want)
    rep.family('tie', 'every chain of ties survives: first, inner and last notes are told apart', ties, 12)

    # ---------------------------------------------------------------- beams across barlines
    def beams():
        rec = {}

        def fill(ip_, o, a, k):
            o.attrs['__fill__'] = (d(a[0]), d(a[1]))
        ip.method_models[('Beams', 'fill')] = fill
        for n in (2, 3, 4):
            for ty in ('eighth', '16th'):
                for cls in ('Note', 'Chord'):
                    def rt():
                        ns = [nt(f'n{x}', cls, ql=.5 if ty == 'eighth' else .25) for x in range(n)]
                        s = sp('M21BeamSpanner', *ns)
                        s.attrs['hasStyleInformation'] = False
                        e = mark('postStavesSpannerToMei', s, '1', score(), meas(), AList([]), ADict({}), bundle())
                        _, rs = read([wr(x) for x in ns], [e], ['_ppBeams'])
                        return [d(r.attrs['beams']).attrs.get('__fill__') for r in rs]
                    want = [(ty, 'start')] + [(ty, 'continue')] * (n - 2) + [(ty, 'stop')]
                    judge(rep, ip, f'beam over {n} {ty} {cls}', WP % ('postStavesSpannerToMei', '_ppBeams'), rt, lambda v: v == want)
    rep.family('beam-span', 'a beam across a barline survives on each of its notes and chords', beams, 10)

    # ---------------------------------------------------------------- lyrics
    def lyricctor(ip_, c, a, k):
        raw = d(k.get('applyRaw', False))
        t = d(k.get('text', a[0] if a else ''))
        syl = d(k.get('syllabic'))
        if not raw and isinstance(t, str) and not t.startswith('-') and not t.endswith('-'):
            syl = syl or 'single'
        return lyric(t, syl)

    def lyric(text, syl, number=1, ident=None, style=None, components=None):
        o = mk(ip, 'music21.note.Lyric', text=text, syllabic=syl, number=number, identifier=ident, components=components,
               isComposite=bool(components), style=style or M.nstyle('TextStylePlacement'), hasStyleInformation=True)
        o.absent = {'placement'}
        return o
    ip.ctor_models['music21.note.Lyric'] = lyricctor

    def lyrics():
        texts = ['la', 'Hal', "don't", 'a b', '1.', 'ü', 'x_y', 'o–o']
        for cls in ('Note', 'Chord'):
            for text in texts:
                for syl in ('begin', 'middle', 'end', 'single'):
                    for number, ident in ((1, None), (2, None), (3, 'refrain'), (11, None)):
                        if text != 'la' and (number, ident) != (1, None):
                            continue
                        for place in (None, 'above', 'below'):
                            def rt():
                                n = nt(cls=cls, lyrics=AList([lyric(text, syl, number, ident, M.nstyle('TextStylePlacement', placement=place))]))
                                _, (r,) = read([wr(n)], [], [])
                                out = []
                                for x in L(r.attrs['lyrics']):
                                    a = d(x).attrs
                                    out.append((d(a['text']), d(a['syllabic']), d(a['number']), d(a['identifier']),
                                                d(d(a['style']).attrs['placement'])))
                                return out
                            judge(rep, ip, f'{cls} lyric {text!r} {syl} verse {number} {ident} {place}',
                                  WP % ('m21LyricsToMei', 'verseFromElement'), rt, lambda v: v == [(text, syl, number, ident, place)])
        for k in (2, 3):
            def rt():
                n = nt(lyrics=AList([lyric(f't{i}', 'single', i + 1) for i in range(k)]))
                _, (r,) = read([wr(n)], [], [])
                return [(d(d(x).attrs['text']), d(d(x).attrs['number'])) for x in L(r.attrs['lyrics'])]
            judge(rep, ip, f'{k} verses', WP % ('m21LyricsToMei', 'verseFromElement'), rt, lambda v: v == [(f't{i}', i + 1) for i in range(k)])

            for number, ident, place in ((1, None, None), (2, None, 'above'), (3, 'refrain', 'below'), (12, 'x y', None)):
                def rt2():
                    n = nt(lyrics=AList([lyric('x', 'composite', number, ident, M.nstyle('TextStylePlacement', placement=place),
                                               AList([lyric(f't{i}', s, 1) for i, s in enumerate(['end', 'single', 'begin'][:k])]))]))
                    _, (r,) = read([wr(n)], [], [])
                    v = d(L(r.attrs['lyrics'])[0])
                    return ([(d(d(x).attrs['text']), d(d(x).attrs['syllabic'])) for x in L(v.attrs['components'])],
                            d(v.attrs['number']), d(v.attrs['identifier']), d(d(v.attrs['style']).attrs['placement']))
                judge(rep, ip, f'elided lyric of {k} syllables, verse {number} {ident} {place}',
                      WP % ('m21LyricsToMei', 'verseFromElement'), rt2,
                      lambda v: v == ([(f't{i}', s) for i, s in enumerate(['end', 'single', 'begin'][:k])], number, ident, place))
    rep.family('lyric', 'text, syllable position, verse number, label and placement of lyrics survive, elided syllables in order',
               lyrics, 100)

    # ---------------------------------------------------------------- text directions
    TE = 'music21.expressions.TextExpression'

    def te(cls, text, **st):
        place = st.pop('place', None)
        o = mk(ip, cls, content=text, placement=place, style=M.nstyle('TextStyle', **st), hasStyleInformation=True, value=text,
               __off__=1.5)
        o.attrs['classes'] = (cls.split('.')[-1],)
        if 'Rehearsal' in cls:
            del o.attrs['placement']
            o.absent = {'placement'}
            o.attrs['style'] = M.nstyle('TextStylePlacement', placement=place, **st)
        return o
    def tec(ip_, c, a, k):
        o = te(TE, a[0] if a else k.get('content'))
        o.attrs['hasStyleInformation'] = True
        return o
    ip.ctor_models[TE] = tec
    ip.ctor_models['music21.dynamics.Dynamic'] = lambda ip_, c, a, k: te('music21.dynamics.Dynamic', a[0] if a else k.get('value'))
    ip.ctor_models['music21.expressions.RehearsalMark'] = lambda ip_, c, a, k: te('music21.expressions.RehearsalMark', a[0])
    ip.ctor_models['music21.style.TextStylePlacement'] = lambda ip_, c, a, k: M.nstyle('TextStylePlacement')
    for pub in ('fontFamily', 'fontSize', 'fontStyle', 'fontWeight', 'enclosure', 'justify', 'absoluteY', 'letterSpacing'):
        for c in ('TextStyle', 'TextStylePlacement', 'Style'):
            ip.attr_models[(c, '_' + pub)] = lambda ip_, o, pub=pub: o.attrs.get(pub)
            ip.method_models[(c, 'set:_' + pub)] = lambda ip_, o, a, k, pub=pub: o.attrs.__setitem__(pub, a[0])
    for c in ('TextStyle', 'TextStylePlacement'):
        def setfam(ip_, o, a, k):
            v = d(a[0])
            o.attrs['fontFamily'] = AList([x.strip() for x in v.split(',')]) if isinstance(v, str) else v

        def setsize(ip_, o, a, k):
            v = d(a[0])
            try:
                v = float(v) if isinstance(v, str) else v
            except ValueError:
                pass
            o.attrs['fontSize'] = v
        ip.method_models[(c, 'set:fontFamily')] = setfam
        ip.method_models[(c, 'set:fontSize')] = setsize
    ENC = ip.cls('music21.style.Enclosure')

    def enc(name):
        return None if name is None else ip.getattr(ENC, name)

    def texts():
        kinds = [('dir', TE, 'dirFromElement'), ('dynam', 'music21.dynamics.Dynamic', 'dynamFromElement'),
                 ('reh', 'music21.expressions.RehearsalMark', 'rehFromElement')]
        base = dict(fontStyle=None, fontWeight=None, fontSize=None, fam=None, color=None, justify=None, enclosure=None, place='above')
        var = [{}]
        for fs in (None, 'normal', 'italic', 'bold', 'bolditalic'):
            for fw in (None, 'normal', 'bold'):
                var.append(dict(fontStyle=fs, fontWeight=fw))
        var += [dict(fontSize=s) for s in (12.0, 8.5)] + [dict(fam='Times')] + [dict(color=c) for c in ('red', '#123456')]
        var += [dict(justify=j) for j in ('left', 'center', 'right')]
        var += [dict(enclosure=e) for e in ('SQUARE', 'CIRCLE', 'DIAMOND', 'TRIANGLE')]
        var += [dict(place=p) for p in ('above', 'below', 'between', None)]
        var += [dict(fontStyle='italic', color='red', enclosure='SQUARE', place='below', justify='center', fontSize=10.0, fam='Arial')]
        for tag, cls, fn in kinds:
            for text in (('rit.', 'p dolce', 'A (b) [c]', 'x & y < z') if tag != 'dynam' else ('f', 'pp', 'sfz', 'mf')):
                for v in var:
                    if text not in ('rit.', 'f') and len(v) != 1:
                        continue
                    p = dict(base, **v)
                    if tag == 'dynam' and p['place'] is None:
                        continue

                    def rt():
                        st = {k: p[k] for k in ('fontStyle', 'fontWeight', 'fontSize', 'color', 'justify')}
                        st['enclosure'] = enc(p['enclosure'])
                        if p['fam']:
                            st['fontFamily'] = AList([p['fam']])
                        if p['place'] == 'between':
                            st['alignVertical'] = 'middle'
                        o = te(cls, text, place='below' if p['place'] == 'between' else p['place'], **st)
                        e = mark('convertPostStaveStreamElement', o, '2', score(), meas(), AList([]))
                        if M.tag(e) != tag:
                            return 'tag', M.tag(e)
                        rd = M.reader(documentRoot=doc([], [e]), spannerBundle=bundle(), activeMeter=mk(
                            ip, 'music21.meter.base.TimeSignature', denominator=4, numerator=4))
                        M.r(rd, '_ppDirsDynamsTempos')
                        staff, offs, r = d(M.r(rd, fn, e))
                        r = d(r)
                        s = d(r.attrs['style'])
                        place = d(r.attrs['placement']) if 'placement' in r.attrs else d(s.attrs.get('placement'))
                        if place == 'below' and d(s.attrs.get('alignVertical')) == 'middle' and tag != 'reh':
                            place = 'between'
                        en = d(s.attrs['enclosure'])
                        fam = d(s.attrs['fontFamily'])
                        fst = d(s.attrs['fontStyle'])
                        bold = fst in ('bold', 'bolditalic') or d(s.attrs['fontWeight']) == 'bold'
                        ital = fst in ('italic', 'bolditalic')
                        return (staff, d(d(offs)[0]), d(r.attrs['value' if tag == 'dynam' else 'content']), bold, ital,
                                d(s.attrs['fontSize']), d(fam.v[0]) if isinstance(fam, AList) and fam.v else None,
                                d(s.attrs['color']), d(s.attrs['justify']), None if en is None else en.name, place)
                    wb = p['fontWeight'] == 'bold' or (p['fontStyle'] in ('bold', 'bolditalic') and p['fontWeight'] != 'normal')
                    wi = p['fontStyle'] in ('italic', 'bolditalic')
                    pl = p['place']
                    if tag == 'reh' and pl == 'between':
                        pl = 'below'
                    want = ('2', 1.5, text, wb, wi, p['fontSize'], p['fam'], p['color'], p['justify'], p['enclosure'], pl)
                    judge(rep, ip, f'{tag} {text!r} {v}', WP % ('emitStyledTextElement', fn), rt, lambda x: x == want)
    rep.family('text-direction', 'text directions, dynamics and rehearsal marks survive with staff, offset, text, font, color, '
               'justification, enclosure and placement', texts, 90)

    # ---------------------------------------------------------------- metronome marks
    def glyphs():
        names = ip.table('M21ObjectConvert', '_M21_DURATION_TYPE_TO_SMUFL_MM_NOTE_HEAD')
        for ty in list(d(names).d):
            for dots in (0, 1, 2):
                def th():
                    return M.w('_getNoteHeadSMUFLUnicodeForReferent', M.dur(type=ty, dots=dots))
                judge(rep, ip, f'metronome mark note {ty} {dots} dots', 'M21ObjectConvert._getNoteHeadSMUFLUnicodeForReferent', th,
                      lambda v: isinstance(v, str) and len(v) == 1 + dots)

    def mms():
        for text, timp in ((None, None), ('Allegro', False), ('animato', True)):
            for number in (40, 120, 132, 1000):
                for ty, dots in (('quarter', 0), ('quarter', 1), ('half', 0), ('eighth', 0), ('32nd', 0)):
                    def th():
                        tb = M.tb()
                        ip.call(ip.getattr(tb, 'start'), ['tempo', ADict({})], {})
                        o = mk(ip, 'music21.tempo.MetronomeMark', text=text, textImplicit=timp, number=number, numberImplicit=False,
                               referent=M.dur(type=ty, dots=dots))
                        M.w('_convertMetronomeMarkToMixedText', o, tb)
                        ip.call(ip.getattr(tb, 'end'), ['tempo'], {})
                        e = M.built(tb)
                        t, _ = d(ip.call(ip.fn('MeiShared', 'textFromElem'), [e], {}))
                        return t
                    judge(rep, ip, f'metronome mark {text} implicit={timp} {ty}+{dots}={number}',
                          'M21ObjectConvert._convertMetronomeMarkToMixedText', th,
                          lambda v: f'= {number}' in v and (('Allegro' in v) == (text == 'Allegro')) and 'animato' not in v)
        glyphs()
    rep.family('metronome-mark', 'a metronome mark is written with its text, its note value and its number', mms, 60)

    # ---------------------------------------------------------------- beams: secondary breaks and tremolos are tables
    rep.use(ip)
