"""C07: every MEI document written is well nested and its containers enclose exactly the notes they belong to."""
from __future__ import annotations
from props.common import *
from props.meih import MEI, NS, num
from sa.typestate import Typestate

EXPLANATION = (
    'Path-sensitive interprocedural typestate analysis of every function that handles the tree builder (each element opened is '
    'closed once, in order, on every path to the caller, through helper functions too), and constant-propagation abstract '
    'interpretation of the layer writer (annotation, containers, gap filling) followed by the layer reader over beam, tuplet and '
    'tremolo configurations.  Oracle: what is read back has the same beams, tuplets, tremolos, offsets and durations.')

DBG = False
DYNAMIC = {'ending', 'beam', 'tuplet', 'fTrem'}     # opened and closed by data held in spanners; decided by the other rules


def run(rep):
    nesting(rep)
    ip = new_ip(max_steps=900000)
    layers(rep, ip)
    rep.use(ip)


# ------------------------------------------------------------------------------------------------ typestate
def nesting(rep):
    def go():
        R = repo()
        fns = [f for f in R.functions if f.mod.name.startswith('converter21.mei')]
        T = Typestate(fns, dynamic=DYNAMIC)
        handlers = [f for f in fns if T.tbnames[id(f)]]
        roots = {id(f) for f in T.roots()}
        for f in handlers:               # callees are analysed in the contexts their callers give them
            if id(f) in roots:
                T.summary(f)
        for f in handlers:
            if id(f) not in T.summ:
                T.summary(f)
        bad = {}
        for f, line, msg, facts in T.errors:
            bad.setdefault(f.qual, f'line {line}: {msg}' + (f' when {", ".join(facts)}' if facts else ''))
        for f in handlers:
            su = T.summ.get(id(f))
            if f.qual in bad:
                rep.bad(f.qual, f.where, bad[f.qual])
            elif su is None:
                rep.unsure(f.qual, 'more paths than the bound')
            elif id(f) in roots and any(o.push or o.pop for o in su):
                o = [o for o in su if o.push or o.pop][0]
                rep.bad(f.qual, f.where, f'some path leaves <{", ".join(o.push)}> open' if o.push else
                        f'some path closes <{", ".join(o.pop)}> without having opened it')
            else:
                rep.ok(f.qual)
        rep.analysed['builder events'] = T.events
        rep.analysed['functions that handle the builder'] = len(handlers)
    rep.family('element-nesting', 'on every path through the writer each element that is opened is closed once, innermost first', go, 30)


# ------------------------------------------------------------------------------------------------ layers
def layers(rep, ip):
    M = MEI(ip)
    M.install()
    d = ip.deref
    ip.inline_ext.add('music21.beam')
    L = lambda v: list(d(v).v)
    model(ip, 'M21Utilities', 'extendCustomM21Attributes', lambda ip_, a, k: None)
    model(ip, 'M21Utilities', 'm21PedalMarksSupported', lambda ip_, a, k: False)
    model(ip, 'M21Utilities', 'assureXmlIds', lambda ip_, a, k: None)
    model(ip, 'M21Utilities', 'assureXmlId', lambda ip_, a, k: None)
    model(ip, 'M21Utilities', 'objectIsInHierarchy', lambda ip_, a, k: d(a[0]).attrs['__meas__'] is d(a[1]))

    KINDS = ('M21BeamSpanner', 'M21TupletSpanner', 'TremoloSpanner')
    els = lambda o: o.attrs['__els__'].v

    def spn(kind, *members, **kw):
        o = mk(ip, 'music21.expressions.TremoloSpanner' if kind == 'TremoloSpanner' else kind,
               __els__=AList(list(members)), hasStyleInformation=False, **kw)
        o.absent = {'mei_beam', 'mei_tuplet', 'mei_skip', 'mei_part_idx'}
        return o
    for c in KINDS:
        ip.method_models[(c, 'addSpannedElements')] = lambda ip_, o, a, k: els(o).extend(a)
        ip.method_models[(c, 'getFirst')] = lambda ip_, o, a, k: els(o)[0]
        ip.method_models[(c, 'getLast')] = lambda ip_, o, a, k: els(o)[-1]
        ip.method_models[(c, 'isFirst')] = lambda ip_, o, a, k: els(o)[0] is d(a[0])
        ip.method_models[(c, 'isLast')] = lambda ip_, o, a, k: els(o)[-1] is d(a[0])
        ip.method_models[(c, 'getSpannedElements')] = lambda ip_, o, a, k: AList(list(els(o)))
        ip.method_models[(c, '__len__')] = lambda ip_, o, a, k: len(els(o))
    ip.ctor_models['M21BeamSpanner'] = lambda ip_, c, a, k: spn('M21BeamSpanner')
    ip.ctor_models['M21TupletSpanner'] = lambda ip_, c, a, k: spn('M21TupletSpanner', startTuplet=a[0])

    def read_trem(ip_, c, a, k):
        return spn('TremoloSpanner', *a, numberOfMarks=3)
    ip.ctor_models['music21.expressions.TremoloSpanner'] = read_trem
    ip.ctor_models['music21.expressions.Tremolo'] = lambda ip_, c, a, k: mk(ip, 'music21.expressions.Tremolo', numberOfMarks=3)
    ip.ctor_models['music21.spanner.SpannerBundle'] = lambda ip_, c, a, k: mk(ip, 'music21.spanner.SpannerBundle', __sp__=AList([]))
    ip.method_models[('SpannerBundle', 'append')] = lambda ip_, o, a, k: o.attrs['__sp__'].v.append(d(a[0]))
    ip.method_models[('SpannerBundle', '__iter__')] = lambda ip_, o, a, k: AList(list(o.attrs['__sp__'].v))
    ip.method_models[('SpannerBundle', 'getByIdLocal')] = lambda ip_, o, a, k: AList([])

    world = {}

    def sites(ip_, o, a, k):
        want = [getattr(d(c), 'short', None) for c in (d(a[0]).v if a else [])]
        return AList([s for s in world['spanners'] if any(e is o for e in els(s)) and (not want or d(s).cname in want)])
    for c in ('Note', 'Chord', 'Rest', 'Unpitched'):
        ip.method_models[(c, 'getSpannerSites')] = sites
        ip.method_models[(c, 'getOffsetInHierarchy')] = lambda ip_, o, a, k: o.attrs['__off__']
    ip.method_models[('Score', 'append')] = lambda ip_, o, a, k: world['spanners'].append(d(a[0]))
    ip.method_models[('Measure', '__iter__')] = lambda ip_, o, a, k: AList(o.attrs['__items__'])
    ip.method_models[('Voice', '__iter__')] = lambda ip_, o, a, k: AList(o.attrs['__items__'])
    ip.method_models[('Voice', 'getOffsetInHierarchy')] = lambda ip_, o, a, k: o.attrs['__off__']

    # reader side: the voice collects what is appended
    ip.ctor_models['music21.stream.base.Voice'] = lambda ip_, c, a, k: voice_out()
    ip.ctor_models['music21.stream.Voice'] = lambda ip_, c, a, k: voice_out()

    def voice_out():
        return mk(ip, 'music21.stream.base.Voice', __items__=[], id=None)
    ip.method_models[('Voice', 'coreAppend')] = lambda ip_, o, a, k: o.attrs['__items__'].append(d(a[0]))
    ip.method_models[('Voice', 'coreElementsChanged')] = lambda ip_, o, a, k: None
    ip.method_models[('Duration', 'appendTuplet')] = append_tuplet

    def tup_ctor(ip_, c, a, k):
        at = {kk: d(v) for kk, v in k.items()}
        n1, n2 = at.get('numberNotesActual', d(a[0]) if a else 3), at.get('numberNotesNormal', d(a[1]) if len(a) > 1 else 2)
        return tup(n1, n2, durationActual=k.get('durationActual'), durationNormal=k.get('durationNormal'))
    ip.ctor_models['music21.duration.Tuplet'] = tup_ctor

    def tup(a, n, **kw):
        at = dict(numberNotesActual=a, numberNotesNormal=n, __mult__=Fraction(n, a), type=None, bracket=True, placement=None,
                  tupletActualShow='number', tupletNormalShow=None, durationActual=None, durationNormal=None)
        at.update(kw)
        return mk(ip, 'music21.duration.Tuplet', **at)
    ip.method_models[('Tuplet', 'tupletMultiplier')] = lambda ip_, o, a, k: num(o.attrs['__mult__'])

    def beams_obj(spec):
        o = d(ip.instantiate(ip.cls('music21.beam.Beams'), [], {}))
        for x in spec:
            ty, _, di = x.partition('-')
            ip.call(ip.getattr(o, 'append'), [ty, di or None], {})
        return o
    ip.ctor_models.pop('music21.beam.Beams', None)

    def note(ev, off, meas):
        """ev: dict type, dots, beams, tuplets, kind, trem"""
        kind = ev.get('kind', 'Note')
        dur = M.dur(type=ev['type'], dots=ev.get('dots', 0), tuplets=tuple(ev.get('tuplets', ())))
        if ev.get('sound') is not None:
            dur.attrs['linked'] = False
            dur.attrs['quarterLength'] = ev['sound']
        if ev.get('grace'):
            dur = mk(ip, 'music21.duration.GraceDuration', type=ev['type'], dots=0, linked=False, quarterLength=0.0, isGrace=True,
                     slash=True, tuplets=(), stealTimePrevious=None, stealTimeFollowing=None)
        exprs = []
        if ev.get('trem'):
            exprs.append(mk(ip, 'music21.expressions.Tremolo', numberOfMarks=ev['trem']))
        P = lambda s: mk(ip, 'music21.pitch.Pitch', step=s, octave=4, accidental=None)
        kw = dict(duration=dur, __styled__=False, __off__=off, __meas__=meas, expressions=AList(exprs), quarterLength=dur.attrs['quarterLength'])
        if kind == 'Rest':
            n = M.gn('music21.note.Rest', **kw)
            n.absent = n.absent | {'mei_oloc', 'mei_ploc', 'beams'}
            n.attrs.pop('beams', None)
        elif kind == 'Chord':
            ms = [M.gn('music21.note.Note', pitch=P(s), duration=dur, __styled__=False, pitches=(P(s),)) for s in 'CE']
            n = M.gn('music21.chord.Chord', notes=tuple(ms), **kw)
            n.attrs['pitches'] = tuple(m.attrs['pitch'] for m in ms)
            n.attrs['beams'] = beams_obj(ev.get('beams', ()))
        else:
            n = M.gn('music21.note.Note', pitch=P('C'), **kw)
            n.attrs['pitches'] = (n.attrs['pitch'],)
            n.attrs['beams'] = beams_obj(ev.get('beams', ()))
        n.absent = n.absent | {'mei_nonignored_beams', 'meireader_stem_mod', 'meireader_breaksec', 'm21TupletSearch', 'm21TupletNum',
                               'meireader_dir_dynam_tempo_list', 'mei_emitted'}
        return n
    old_gn = M.gn

    def gn2(cls, **kw):
        o = old_gn(cls, **kw)
        if cls.endswith('Rest'):
            o.attrs.pop('beams', None)
            o.absent = o.absent | {'beams', 'mei_oloc', 'mei_ploc'}
        elif not isinstance(o.attrs.get('beams'), Obj) or 'beamsList' not in o.attrs['beams'].attrs:
            o.attrs['beams'] = beams_obj(())
        o.absent = o.absent | {'meireader_stem_mod', 'meireader_breaksec', 'm21TupletSearch', 'm21TupletNum', 'mei_nonignored_beams',
                               'meireader_dir_dynam_tempo_list', 'mei_breaksec'}
        if 'hideObjectOnPrint' in o.attrs['style'].attrs:
            o.attrs['__styled__'] = True
        return o
    M.gn = gn2
    for c in ('Note', 'Rest', 'Unpitched'):
        ip.ctor_models['music21.note.' + c] = M._gn('music21.note.' + c)
    ip.ctor_models['music21.note.Rest'] = lambda ip_, c, a, k: M.gn('music21.note.Rest', duration=(
        d(a[0]) if a and isinstance(d(a[0]), Obj) else M.dur(d(a[0]) if a else 1.0) if 'duration' not in k else d(k['duration'])))
    ip.ctor_models['music21.chord.Chord'] = M._gn('music21.chord.Chord')

    def write(evs, ftrem=None, in_voice=False, voice_off=0.0):
        """annotate the measure as the score writer does, then write its layer"""
        world['spanners'] = []
        part = mk(ip, 'music21.stream.base.Part')
        meas = mk(ip, 'music21.stream.base.Measure')
        score = mk(ip, 'music21.stream.base.Score')
        off = Fraction(0)
        items = []
        for ev in evs:
            if 'gap' in ev:
                off += Fraction(ev['gap'])
                continue
            n = note(ev, num(off + Fraction(voice_off)), meas)
            off += Fraction(d(n.attrs['duration']).attrs['quarterLength'])
            items.append(n)
        if ftrem:
            i, j, marks = ftrem
            world['spanners'].append(spn('TremoloSpanner', items[i], items[j], numberOfMarks=marks))
        vo = meas
        if in_voice:
            vo = mk(ip, 'music21.stream.base.Voice', __items__=items, id=1, __off__=voice_off)
            vo.absent = {'c21_label'}
            meas.attrs['__items__'] = [vo]
        else:
            meas.attrs['__items__'] = items
            meas.absent = {'c21_label'}
        vid = ''
        sc = mk(ip, 'MeiScore', m21Score=score, customM21AttrsToDelete=ADict({}), currentTupletSpanners=ADict({}),
                currentTieSpanners=ADict({}), previousBeamedNoteOrChord=ADict({}), currentBeamSpanners=ADict({}))
        sc.attrs['currentTupletSpanners'].d[part] = AList([])
        sc.attrs['currentTieSpanners'].d[part] = AList([])
        sc.attrs['previousBeamedNoteOrChord'].d[(part, vid)] = None
        sc.attrs['currentBeamSpanners'].d[(part, vid)] = AList([])
        for n in items:
            ip.call(ip.getattr(sc, 'annotateBeams'), [n, part, vid], {})
            ip.call(ip.getattr(sc, 'annotateTuplets'), [n, part], {})
        staff = mk(ip, 'MeiStaff', m21Measure=meas, m21Score=score, nextFreeVoiceNumber=1, staffNStr='1')
        lay = mk(ip, 'MeiLayer', m21Voice=vo, parentStaff=staff, spannerBundle=mk(ip, 'music21.spanner.SpannerBundle', __sp__=AList(list(world['spanners']))),
                 customAttrs=ADict({}), scoreMeterStream=AList([]))
        tb = M.tb()
        ip.call(ip.getattr(lay, 'makeRootElement'), [tb], {})
        return M.built(tb), items

    def read(e):
        d(d(e).attrs['attrib']).d['n'] = '1'
        rd = M.reader(spannerBundle=mk(ip, 'music21.spanner.SpannerBundle', __sp__=AList([])))
        v = d(M.r(rd, 'layerFromElement', e, '1'))
        return rd, v.attrs['__items__']

    def show(n):
        du = d(n.attrs['duration'])
        if 'beams' in n.attrs and n.cname != 'Rest':
            bs = tuple(d(d(b).attrs['type']) + ('-' + d(d(b).attrs['direction']) if d(d(b).attrs['direction']) else '')
                       for b in L(d(n.attrs['beams']).attrs['beamsList']))
        else:
            bs = ()
        tps = list((d(d(t).attrs['numberNotesActual']), d(d(t).attrs['numberNotesNormal']), d(d(t).attrs['type']))
                    for t in d(du.attrs['tuplets']))
        tps.sort(key=str)
        tr = tuple(d(d(x).attrs['numberOfMarks']) for x in L(n.attrs['expressions']) if d(x).cname == 'Tremolo')
        return (n.cname, d(du.attrs['type']), d(du.attrs['dots']), Fraction(d(du.attrs['quarterLength'])), bs, tps, tr)

    WH = 'MeiLayer.makeRootElement / MeiReader.layerFromElement'

    def case(name, evs, ftrem=None, **kw):
        def rt():
            e, items = write([dict(x, tuplets=[tup(a, n, type=ty) for a, n, ty in x.get('tuplets', ())]) for x in evs], ftrem, **kw)
            want = [show(n) for n in items]
            if DBG:
                print(dump(e))
            rd, got = read(e)
            real = [d(n) for n in got if not (d(n).cname == 'Rest' and hidden(d(n)))]
            got = [show(n) for n in real]
            if ftrem:
                sps = L(d(rd.attrs['spannerBundle']).attrs['__sp__'])
                want.append([(ftrem[2], ftrem[0], ftrem[1])])
                pos = lambda x: next((i for i, n in enumerate(real) if n is d(x)), None)
                got.append([(d(d(sp).attrs['numberOfMarks']), pos(els(d(sp))[0]), pos(els(d(sp))[-1])) for sp in sps])
            return (want, got) if want != got else True
        judge(rep, ip, name, WH, rt, lambda v: v is True)

    def dump(e):
        return '<%s %s>%s</>' % (M.tag(e), {k: d(v) for k, v in M.attrs(e).items() if k != 'xml:id'}, ''.join(dump(x) for x in M.kids(e)))

    def hidden(n):
        s = n.attrs.get('style')
        return isinstance(s, Obj) and d(s.attrs.get('hideObjectOnPrint')) is True

    E8 = lambda *b, **k: dict(type='eighth', beams=b, **k)
    E16 = lambda *b, **k: dict(type='16th', beams=b, **k)
    Q = lambda **k: dict(type='quarter', **k)

    def beam_cases():
        S, C, T = 'start', 'continue', 'stop'
        yield '2 eighths', [E8(S), E8(T)]
        yield '3 eighths', [E8(S), E8(C), E8(T)]
        yield '4 eighths then 2', [E8(S), E8(C), E8(C), E8(T), E8(S), E8(T)]
        yield 'unbeamed eighths', [E8(), E8()]
        yield 'eighth and two sixteenths', [E8(S), E16(C, S), E16(T, T)]
        yield 'two sixteenths and eighth', [E16(S, S), E16(C, T), E8(T)]
        yield 'dotted eighth and sixteenth', [E8(S, dots=1), E16(T, 'partial-left')]
        yield 'sixteenth and dotted eighth', [E16(S, 'partial-right'), E8(T, dots=1)]
        yield 'sixteenth, eighth, sixteenth', [E16(S, 'partial-right'), E8(C), E16(T, 'partial-left')]
        yield 'four sixteenths', [E16(S, S), E16(C, C), E16(C, C), E16(T, T)]
        yield 'sixteenths with a secondary break', [E16(S, S), E16(C, T), E16(C, S), E16(T, T)]
        yield 'thirty-seconds with a break at level 2', [dict(type='32nd', beams=b) for b in (
            (S, S, S), (C, C, C), (C, C, T), (C, C, S), (C, C, C), (T, T, T))]
        yield 'thirty-seconds with a break at level 1', [dict(type='32nd', beams=b) for b in (
            (S, S, S), (C, T, T), (C, S, S), (T, T, T))]
        yield 'two secondary breaks', [E16(S, S), E16(C, T), E16(C, S), E16(C, T), E16(C, S), E16(T, T)]
        yield 'beam around a rest', [E8(S), dict(type='eighth', kind='Rest'), E8(T)]
        yield 'beam of grace notes', [dict(type='16th', grace=True, beams=(S, S)), dict(type='16th', grace=True, beams=(T, T)), Q()]
        yield 'grace note inside a beam', [E8(S), dict(type='eighth', grace=True), E8(T)]
        yield 'chords in a beam', [E8(S, kind='Chord'), E8(C), E8(T, kind='Chord')]
        yield 'beam between quarters', [Q(), E8(S), E8(T), Q()]
        yield 'dotted eighths', [E8(S, dots=1), E8(C, dots=1), E8(T)]

    def beams_rule():
        for name, evs in beam_cases():
            case(name, evs)
            case(name + ' in a voice', evs, in_voice=True)
    rep.family('beam-structure', 'beams, secondary breaks and partial beams survive on every note of a layer', beams_rule, 36)

    def tuplet_rule():
        S, C, T = 'start', 'continue', 'stop'
        for a, n in ((3, 2), (5, 4), (6, 4), (7, 4), (7, 8), (2, 3), (4, 3), (9, 8), (10, 8)):
            cnt = a
            tt = lambda i: [(a, n, 'start' if i == 0 else 'stop' if i == cnt - 1 else None)]
            case(f'{a}:{n} eighths, unbeamed', [E8(tuplets=tt(i)) for i in range(cnt)])
            case(f'{a}:{n} eighths, beamed', [E8(S if i == 0 else T if i == cnt - 1 else C, tuplets=tt(i)) for i in range(cnt)])
            case(f'{a}:{n} eighths with chords and rests', [
                E8(tuplets=tt(i), kind=('Rest', 'Chord', 'Note')[i % 3]) for i in range(cnt)])
            case(f'{a}:{n} eighths between quarters', [Q()] + [E8(tuplets=tt(i)) for i in range(cnt)] + [Q()])
        t3 = lambda ty: [(3, 2, ty)]
        case('quarter and eighth in a triplet', [Q(tuplets=t3('start')), E8(tuplets=t3('stop'))])
        case('dotted triplet members', [E8(dots=1, tuplets=t3('start')), E16(tuplets=t3(None)), E8(tuplets=t3('stop'))])
        case('one-note tuplet', [Q(tuplets=t3('startStop'))])
        case('two triplets under one beam', [E8(S, tuplets=t3('start')), E8(C, tuplets=t3(None)), E8(C, tuplets=t3('stop')),
                                             E8(C, tuplets=t3('start')), E8(C, tuplets=t3(None)), E8(T, tuplets=t3('stop'))])
        case('triplet with a beam over its last two notes', [E8(tuplets=t3('start')), E8(S, tuplets=t3(None)), E8(T, tuplets=t3('stop'))])
        case('triplet of sixteenths inside a beam of eighths', [E8(S), E16(C, S, tuplets=t3('start')), E16(C, C, tuplets=t3(None)),
                                                               E16(C, T, tuplets=t3('stop')), E8(T)])
        case('triplet and plain eighths under one beam', [E8(S, tuplets=t3('start')), E8(C, tuplets=t3(None)), E8(C, tuplets=t3('stop')),
                                                          E8(C), E8(T)])
        case('triplet holding two beams', [E16(S, S, tuplets=t3('start')), E16(T, T, tuplets=t3(None)), E16(S, S, tuplets=t3(None)),
                                          E16(T, T, tuplets=t3(None)), E8(tuplets=t3('stop'))])
        case('grace note in a triplet', [E8(tuplets=t3('start')), dict(type='eighth', grace=True), E8(tuplets=t3(None)), E8(tuplets=t3('stop'))])
        case('back-to-back triplets', [E8(tuplets=t3(x)) for x in ('start', None, 'stop')] * 3)
        n5 = lambda o, i: [(3, 2, o), (5, 4, i)]
        case('quintuplet inside a triplet', [Q(tuplets=t3('start'))] + [
            E16(tuplets=n5(None, 'start' if i == 0 else 'stop' if i == 4 else None)) for i in range(5)] + [Q(tuplets=t3('stop'))])
        # every way to group six eighth notes under beams, with triplets over the first, the last or both halves
        for mask in range(32):
            ends = [i for i in range(5) if mask >> i & 1] + [5]
            groups, st = [], 0
            for e in ends:
                groups.append((st, e))
                st = e + 1
            for trip in ((0,), (3,), (0, 3)):
                if any(not (g[1] < t or g[0] > t + 2 or (t <= g[0] and g[1] <= t + 2) or (g[0] <= t and t + 2 <= g[1]))
                       for g in groups for t in trip):
                    continue        # a tuplet that overlaps a beam only in part is written beside the notes
                bm = {}
                for s0, e0 in groups:
                    for i in range(s0, e0 + 1):
                        bm[i] = () if s0 == e0 else (S if i == s0 else T if i == e0 else C,)
                case(f'six eighths, beams {groups}, triplets at {trip}', [E8(*bm[i], tuplets=t3(
                    {0: 'start', 2: 'stop'}.get(i % 3)) if i // 3 * 3 in trip else []) for i in range(6)])
    rep.family('tuplet-structure', 'tuplets, alone and combined with beams, survive on every note of a layer', tuplet_rule, 36)

    def trem_rule():
        for ty in ('breve', 'whole', 'half', 'quarter', 'eighth', '16th', '32nd', '64th'):
            for dots in (0, 1, 2):
                for k in range(1, 6):
                    for kind in ('Note', 'Chord'):
                        if kind == 'Chord' and (dots == 2 or k > 3):
                            continue
                        case(f'{kind} {ty}+{dots} with {k} tremolo marks', [dict(type=ty, dots=dots, trem=k, kind=kind)])
        t3 = lambda ty: [(3, 2, ty)]
        case('tremolo in a triplet', [E8(tuplets=t3('start'), trem=2), E8(tuplets=t3(None), trem=1), E8(tuplets=t3('stop'))])
        case('tremolo in a beam', [E8('start', trem=1), E8('continue', trem=2), E8('stop', trem=3)])
        for ty in ('whole', 'half', 'quarter', 'eighth', '16th'):
            for dots in (0, 1):
                for k in range(1, 5):
                    half = num(Fraction(M21_TYPES[ty]) * Fraction(2 ** (dots + 1) - 1, 2 ** dots) / 2)
                    fl = {'eighth': 1, '16th': 2}.get(ty, 0)
                    for beamed in ((False, True) if fl else (False,)):
                        for before in (0, 1):
                            b = lambda x: (x,) * fl if beamed else ()
                            case(f'tremolo of {k} marks between two {ty}+{dots}{" beamed" if beamed else ""} after {before}',
                                 [Q()] * before + [dict(type=ty, dots=dots, sound=half, beams=b('start')),
                                                   dict(type=ty, dots=dots, sound=half, beams=b('stop'))], ftrem=(before, before + 1, k))
        case('tremolo inside a longer beam', [E8('start'), dict(type='eighth', sound=.25, beams=('continue',)),
                                             dict(type='eighth', sound=.25, beams=('stop',))], ftrem=(1, 2, 2))
    rep.family('tremolo', 'one-note and two-note tremolos survive with their marks, inside beams and tuplets too', trem_rule, 150)

    # ------------------------------------------------------------ gaps
    def gaps():
        GS = [Fraction(1, 4), Fraction(1, 2), Fraction(3, 4), Fraction(1), Fraction(5, 4), Fraction(3, 2), Fraction(7, 4), Fraction(9, 4),
              Fraction(5, 2), Fraction(11, 4), Fraction(13, 4), Fraction(5), Fraction(9, 8), Fraction(1, 3), Fraction(2, 3), Fraction(4, 3),
              Fraction(5, 3), Fraction(1, 5), Fraction(3, 5), Fraction(1, 6), Fraction(5, 6), Fraction(1, 1024)]
        for g in GS:
            def rt():
                v = [Fraction(d(x)) for x in L(ip.call(ip.fn('M21Utilities', 'getPowerOfTwoQuarterLengthsWithDotsAddingTo'), [num(g)], {}))]
                return sum(v) == g and all(x > 0 for x in v)
            judge(rep, ip, f'note values adding up to {g}', 'M21Utilities.getPowerOfTwoQuarterLengthsWithDotsAddingTo', rt, lambda v: v is True)
        for g in GS[:13]:
            for pos in (0, 1, 2):
                for voice in (False, True):
                    def rt():
                        evs = [Q(), dict(type='half'), Q()]
                        evs.insert(pos, dict(gap=g))
                        e, items = write(evs, in_voice=voice)
                        off, got = Fraction(0), []
                        for x in M.kids(e):
                            rd = M.shared_reader()
                            r = d(M.r(rd, 'noteFromElement' if M.tag(x) == 'note' else 'spaceFromElement', x))
                            if M.tag(x) == 'note':
                                got.append(off)
                            off += Fraction(d(d(r.attrs['duration']).attrs['quarterLength']))
                        return got == [Fraction(n.attrs['__off__']) for n in items]
                    judge(rep, ip, f'gap of {g} before note {pos + 1}{" in a voice" if voice else ""}', WH, rt, lambda v: v is True)
        for vo in (.5, 1.0, 1.25, 2.5):
            def rt():
                e, items = write([Q(), Q()], in_voice=True, voice_off=vo)
                off, got = Fraction(0), []
                for x in M.kids(e):
                    rd = M.shared_reader()
                    r = d(M.r(rd, 'noteFromElement' if M.tag(x) == 'note' else 'spaceFromElement', x))
                    if M.tag(x) == 'note':
                        got.append(off)
                    off += Fraction(d(d(r.attrs['duration']).attrs['quarterLength']))
                return got == [Fraction(n.attrs['__off__']) for n in items]
            judge(rep, ip, f'voice that starts at {vo}', WH, rt, lambda v: v is True)
    rep.family('gap', 'a gap between the notes of a layer is filled with spaces that add up to exactly the gap', gaps, 90)

    # ------------------------------------------------------------ endings
    ip.method_models[('Measure', 'getSpannerSites')] = lambda ip_, o, a, k: AList(o.attrs['__brackets__'])
    ip.method_models[('RepeatBracket', 'isFirst')] = lambda ip_, o, a, k: o.attrs['__m__'][0] is d(a[0])
    ip.method_models[('RepeatBracket', 'isLast')] = lambda ip_, o, a, k: o.attrs['__m__'][-1] is d(a[0])

    def endings():
        for nm in (1, 2, 3, 4):
            for parts in (1, 2):
                for i in range(nm):
                    for j in range(i, nm):
                        for number, over in (('1', None), ('1, 3', None), ('2', 'second time')):
                            for second in (False, True):
                                if second and j == nm - 1:
                                    continue

                                def rt():
                                    stacks = [[mk(ip, 'music21.stream.base.Measure', __brackets__=[]) for _ in range(parts)] for _ in range(nm)]
                                    spans = [(i, j)] + ([(j + 1, nm - 1)] if second else [])
                                    for (s, e) in spans:
                                        # music21 keeps the bracket in the first part only
                                        rb = mk(ip, 'music21.spanner.RepeatBracket', __m__=[st[0] for st in stacks[s:e + 1]],
                                                overrideDisplay=over, number=number)
                                        for st in stacks[s:e + 1]:
                                            st[0].attrs['__brackets__'].append(rb)
                                    tb = M.tb()
                                    ip.call(ip.getattr(tb, 'start'), ['section', ADict({})], {})
                                    for x, st in enumerate(stacks):
                                        mm = mk(ip, 'MeiMeasure', m21Measures=AList(st), staves=AList([]), measureNumStr=str(x),
                                                spannerBundle=mk(ip, 'music21.spanner.SpannerBundle'))
                                        ip.call(ip.getattr(mm, 'makeRootElement'), [tb], {})
                                    ip.call(ip.getattr(tb, 'end'), ['section'], {})
                                    root = M.built(tb)
                                    out, x = [], 0
                                    for k_ in M.kids(root):
                                        if M.tag(k_) == 'ending':
                                            c = len([q for q in M.kids(k_) if M.tag(q) == 'measure'])
                                            out.append((x, x + c - 1, M.attrs(k_)['n']))
                                            x += c
                                        elif M.tag(k_) == 'measure':
                                            x += 1
                                    return out == [(s, e, over or number) for s, e in spans] and x == nm
                                judge(rep, ip, f'{number} {over} over measures {i + 1}-{j + 1} of {nm}, {parts} parts, second={second}',
                                      'MeiMeasure.makeRootElement', rt, lambda v: v is True)
    model(ip, 'MeiMeasure', 'startsWithPageBreak', lambda ip_, a, k: (False, 0))
    model(ip, 'MeiMeasure', 'startsWithSystemBreak', lambda ip_, a, k: False)
    model(ip, 'MeiMeasure', '_fillInMeasureAttributes', lambda ip_, a, k: None)
    rep.family('ending', 'an ending encloses exactly the measures of its bracket, with its number or text', endings, 100)


def append_tuplet(ip, o, a, k):
    o.attrs['tuplets'] = tuple(o.attrs['tuplets']) + (ip.deref(a[0]),)
    t, n = o.attrs.get('type'), o.attrs.get('dots')
    if isinstance(t, str) and isinstance(n, int):
        q = Fraction(M21_TYPES[t]) * Fraction(2 ** (n + 1) - 1, 2 ** n)
        for tp in o.attrs['tuplets']:
            q *= ip.deref(tp).attrs.get('__mult__', 1)
        o.attrs['quarterLength'] = num(q)
