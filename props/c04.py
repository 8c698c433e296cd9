"""C04: MEI pitch and rhythm survive write -> read."""
from __future__ import annotations
from props.common import *
from props.meih import MEI, num, ALTER

EXPLANATION = (
    'Constant-propagation abstract interpretation of the MEI writer for notes, rests, chords, durations, tuplets and time '
    'stamps; the abstract element tree it builds is handed to the MEI reader functions.  Oracle: what is read back equals what '
    'was written, and the written attributes are those MEI prescribes.')

STEPS = 'CDEFGAB'
ACCS = [None, 'natural', 'sharp', 'double-sharp', 'triple-sharp', 'flat', 'double-flat', 'triple-flat', 'half-sharp',
        'one-and-a-half-sharp', 'half-flat', 'one-and-a-half-flat']
MEI_ACC = {'natural': 'n', 'sharp': 's', 'double-sharp': ('ss', 'x'), 'triple-sharp': ('ts', 'xs'), 'flat': 'f',
           'double-flat': 'ff', 'triple-flat': 'tf'}
TYPES = [t for t in M21_TYPES if t not in ('zero', 'duplex-maxima')]
TUPS = [(3, 2), (5, 4), (6, 4), (7, 4), (7, 8), (9, 8), (2, 3), (4, 3), (10, 8), (11, 8), (5, 3), (12, 8), (3, 4), (5, 6)]


def run(rep):
    ip = new_ip(max_steps=300000)
    M = MEI(ip)
    M.install()
    d = ip.deref
    thorough = rep.tier == 'thorough'

    def tup(a, n, **kw):
        return mk(ip, 'music21.duration.Tuplet', numberNotesActual=a, numberNotesNormal=n, __mult__=Fraction(n, a),
                  **kw)

    ip.ctor_models['music21.duration.Tuplet'] = lambda ip_, c, a, k: tup(
        d(k['numberNotesActual']), d(k['numberNotesNormal']), durationActual=k.get('durationActual'),
        durationNormal=k.get('durationNormal'), type=None, bracket=True, placement=None, tupletActualShow='number',
        tupletNormalShow=None)

    def append_tuplet(ip_, o, a, k):
        o.attrs['tuplets'] = tuple(o.attrs['tuplets']) + (d(a[0]),)
        M._recalc(o)
    ip.method_models[('Duration', 'appendTuplet')] = append_tuplet

    def pitch(step, o, acc, shown):
        return mk(ip, 'music21.pitch.Pitch', step=step, octave=o,
                  accidental=None if acc is None else M.accid(acc, shown))

    def note(p, dur, **kw):
        n = M.gn('music21.note.Note', pitch=p, duration=dur, **kw)
        n.attrs['pitches'] = (p,)
        n.attrs['__styled__'] = False
        return n

    def wr(n, kind='m21NoteToMei'):
        tb = M.tb()
        M.w(kind, n, mk(ip, 'music21.spanner.SpannerBundle'), tb)
        return M.built(tb)

    def P(p):
        p = d(p)
        a = d(p.attrs['accidental'])
        return (d(p.attrs['step']), d(p.attrs['octave']), None if a is None else d(a.attrs['name']),
                None if a is None else d(a.attrs['displayStatus']))

    def D(x):
        x = d(x)
        return (d(x.attrs['type']), d(x.attrs['dots']), d(x.attrs['quarterLength']))

    # ------------------------------------------------------------------ pitch
    def pitches():
        for step in STEPS:
            for o in range(-1, 11):
                for acc in (ACCS if o in (-1, 0, 4, 9, 10) or thorough else (None, 'sharp', 'flat')):
                    for shown in ((True, False) if acc else (None,)):
                        if acc == 'natural' and not shown:
                            want = (step, o, None, None)
                        else:
                            want = (step, o, acc, shown)

                        def rt():
                            e = wr(note(pitch(step, o, acc, shown), M.dur(type='quarter')))
                            return P(d(M.r(M.reader(), 'noteFromElement', e)).attrs['pitch'])
                        judge(rep, ip, f'{step}{o} {acc} shown={shown}', 'M21ObjectConvert._noteToMei / MeiReader.noteFromElement',
                              rt, lambda v: v == want)
    rep.family('pitch', 'every step, octave and accidental (shown or not) written on a note is read back', pitches, 250)

    def pitch_attrs():
        for step in STEPS:
            for o in (0, 3, 4, 9):
                for acc in (None, 'natural', 'sharp', 'flat', 'double-sharp', 'double-flat', 'triple-sharp', 'triple-flat'):
                    for shown in (True, False):
                        if acc is None and shown:
                            continue

                        def th():
                            a = M.attrs(wr(note(pitch(step, o, acc, shown), M.dur(type='quarter'))))
                            return (a.get('pname'), a.get('oct'), a.get('accid'), a.get('accid.ges'))

                        def want(v):
                            pn, oc, ac, ges = v
                            al = MEI_ACC.get(acc, ()) if acc else ()
                            al = (al,) if isinstance(al, str) else al
                            if acc is None:
                                ok = ac is None and ges in (None, 'n')
                            elif shown:
                                ok = ac in al and (ges is None or ges in al)
                            else:
                                ok = ac is None and (ges in al or (acc == 'natural' and ges is None))
                            return pn == step.lower() and oc == str(o) and ok
                        judge(rep, ip, f'{step}{o} {acc} shown={shown} attributes', 'M21ObjectConvert._noteToMei', th, want)
    rep.family('pitch-attributes', 'pname, oct, accid and accid.ges written are those MEI prescribes', pitch_attrs, 250)

    def accid_read():
        names = {'s': 'sharp', 'f': 'flat', 'ss': 'double-sharp', 'x': 'double-sharp', 'ff': 'double-flat',
                 'xs': 'triple-sharp', 'ts': 'triple-sharp', 'tf': 'triple-flat', 'n': 'natural', 'nf': 'flat',
                 'ns': 'sharp', 'su': 'one-and-a-half-sharp', 'sd': 'half-sharp', 'fu': 'half-flat',
                 'fd': 'one-and-a-half-flat', '1qf': 'half-flat', '3qf': 'one-and-a-half-flat', '1qs': 'half-sharp',
                 '3qs': 'one-and-a-half-sharp'}
        ges = {'s', 'f', 'ss', 'ff', 'ts', 'tf', 'n', 'su', 'sd', 'fu', 'fd'}
        for code, nm in names.items():
            for step in 'CFB':
                for how in ('attr', 'child', 'ges', 'childges'):
                    if how in ('ges', 'childges') and code not in ges:
                        continue
                    shown = how in ('attr', 'child')
                    key = 'accid' if shown else 'accid.ges'

                    def th():
                        kids = [M.E('accid', {key: code})] if how.startswith('child') else []
                        at = {'pname': step.lower(), 'oct': '5', 'dur': '4'}
                        if not how.startswith('child'):
                            at[key] = code
                        return P(d(M.r(M.reader(), 'noteFromElement', M.E('note', at, *kids))).attrs['pitch'])
                    judge(rep, ip, f'{step} {key}={code} as {how}', 'MeiReader.noteFromElement / accidFromElement', th,
                          lambda v: v == (step, 5, nm, shown))
    rep.family('accidental-read', 'every MEI accidental, as attribute or child element, shown or gestural, is read with its '
               'meaning', accid_read, 80)

    def ottava_octaves():
        for ty, sh in (('8va', 1), ('8vb', -1), ('15ma', 2), ('15mb', -2), ('22da', 3), ('22db', -3)):
            for tr in (True, False):
                for o in (2, 4, 5, 7):
                    def th():
                        n = note(pitch('D', o, None, None), M.dur(type='quarter'))
                        n.attrs['__spanners__'] = AList([mk(ip, 'music21.spanner.Ottava', type=ty, transposing=tr)])
                        a = M.attrs(wr(n))
                        return a.get('oct'), a.get('oct.ges')
                    want = (str(o), str(o + sh)) if tr else (str(o - sh), str(o))
                    judge(rep, ip, f'octave {o} under {ty} transposing={tr}', 'M21ObjectConvert._noteToMei', th,
                          lambda v: v == want)
    rep.family('ottava-octave', 'under an ottava the written octave and the sounding octave are both exact', ottava_octaves, 40)

    def unpitched():
        for step in STEPS:
            for o in range(0, 9):
                def th():
                    n = M.gn('music21.note.Unpitched', duration=M.dur(type='quarter'),
                             __dp__=mk(ip, 'music21.pitch.Pitch', step=step, octave=o, accidental=None), __styled__=False)
                    e = wr(n)
                    q = d(d(M.r(M.reader(), 'noteFromElement', e)).attrs['__dp__'])
                    return M.attrs(e).get('loc'), d(q.attrs['step']), d(q.attrs['octave'])
                loc = o * 7 + STEPS.index(step) - 30
                judge(rep, ip, f'unpitched note displayed at {step}{o}',
                      'M21ObjectConvert.m21DisplayPitchToMeiLoc / meiLocToM21DisplayName', th,
                      lambda v: v == (str(loc), step, o))
    rep.family('unpitched', 'every display position of an unpitched note survives', unpitched, 60)

    # ------------------------------------------------------------------ rhythm
    MEIDUR = {'maxima': 'maxima', 'longa': 'long', 'breve': 'breve', 'whole': '1', 'half': '2', 'quarter': '4', 'eighth': '8'}

    def durs():
        for ty in TYPES:
            mei = MEIDUR.get(ty) or ty.rstrip('ndth')
            for dots in range(0, 5):
                q = num(Fraction(M21_TYPES[ty]) * Fraction(2 ** (dots + 1) - 1, 2 ** dots))
                for kind, tag in (('m21NoteToMei', 'note'), ('m21RestToMei', 'rest'), ('space', 'space'),
                                  ('m21ChordToMei', 'chord')):
                    def rt():
                        du = M.dur(type=ty, dots=dots)
                        if tag == 'note':
                            e = wr(note(pitch('D', 4, None, None), du))
                            f = 'noteFromElement'
                        elif tag == 'chord':
                            c = M.gn('music21.chord.Chord', duration=du, __styled__=False)
                            c.attrs['notes'] = tuple(note(pitch(s, 4, None, None), M.dur(type='quarter')) for s in 'CE')
                            e = wr(c, kind)
                            f = 'chordFromElement'
                        else:
                            n = M.gn('music21.note.Rest', duration=du, __styled__=tag == 'space')
                            n.attrs['style'] = M.nstyle(hideObjectOnPrint=tag == 'space')
                            e = wr(n, 'm21RestToMei')
                            f = tag + 'FromElement'
                        a = M.attrs(e)
                        n2 = d(M.r(M.reader(), f, e))
                        return (M.tag(e), a.get('dur'), a.get('dots', '0')) + D(n2.attrs['duration'])
                    judge(rep, ip, f'{tag} {ty} dots={dots}', 'M21ObjectConvert.m21DurationToMeiDurDotsGrace / '
                          'MeiReader.durationFromAttributes', rt, lambda v: v == (tag, mei, str(dots), ty, dots, q))
    rep.family('rhythm', 'every note type with every number of dots survives on notes, rests, spaces and chords', durs, 250)

    def dur_read():
        alias = {'longa': 16, 'brevis': 8, 'semibrevis': 4, 'minima': 2, 'semiminima': 1, 'fusa': .5, 'semifusa': .25}
        for k, q in alias.items():
            judge(rep, ip, f'dur={k}', 'MeiReader.durationFromAttributes',
                  lambda: D(M.r(M.shared_reader(), 'durationFromAttributes', M.E('note', {'dur': k})))[2], lambda v: v == q)
        for k in ('4', '8', '2'):
            for nd in (1, 2, 3):
                q = num(Fraction(4, int(k)) * Fraction(2 ** (nd + 1) - 1, 2 ** nd))

                def th():
                    e = M.E('note', {'dur': k, 'pname': 'c', 'oct': '4'}, *[M.E('dot') for _ in range(nd)])
                    return D(d(M.r(M.reader(), 'noteFromElement', e)).attrs['duration'])[1:]
                judge(rep, ip, f'dur={k} with {nd} dot elements', 'MeiReader.noteFromElement', th, lambda v: v == (nd, q))
    rep.family('rhythm-read', 'mensural names and dot elements are read as the durations they denote', dur_read, 14)

    def unlinked():
        for ty, dots in (('quarter', 0), ('half', 1), ('eighth', 2), ('16th', 0), ('whole', 0)):
            for gty, gdots in (('quarter', 0), ('half', 1), ('eighth', 0), ('eighth', 1), ('quarter', 2), ('16th', 0),
                               ('32nd', 1), ('whole', 0), ('breve', 0)):
                for t3 in ((), ((3, 2),), ((5, 4),), ((3, 2), (5, 4)), ((7, 4),)):
                    if (gty, gdots) == (ty, dots) and t3:
                        continue
                    ql = Fraction(M21_TYPES[gty]) * Fraction(2 ** (gdots + 1) - 1, 2 ** gdots)
                    mult = Fraction(1)
                    for a, n in t3:
                        mult *= Fraction(n, a)

                    def rt():
                        du = M.dur(ql=num(ql * mult), type=ty, dots=dots, linked=False,
                                   tuplets=tuple(tup(a, n) for a, n in t3))
                        e = wr(note(pitch('D', 4, None, None), du))
                        x = d(M.r(M.shared_reader(), 'durationFromAttributes', e))
                        return d(x.attrs['type']), d(x.attrs['dots']), d(x.attrs['quarterLength'])
                    judge(rep, ip, f'drawn {ty}+{dots}, sounding {gty}+{gdots}, in tuplets {t3}',
                          'M21ObjectConvert.m21DurationToMeiDurDotsGrace', rt, lambda v: v == (ty, dots, num(ql)))
    rep.family('gestural', 'a sounding duration that differs from the drawn one survives, inside tuplets too', unlinked, 150)

    def graces():
        for cls, kw, want in (
                ('AppoggiaturaDuration', {}, 'acc'), ('GraceDuration', dict(stealTimePrevious=.5, stealTimeFollowing=None, slash=None), 'unacc'),
                ('GraceDuration', dict(stealTimePrevious=None, stealTimeFollowing=.5, slash=None), 'acc'),
                ('GraceDuration', dict(stealTimePrevious=None, stealTimeFollowing=None, slash=True), 'unacc'),
                ('GraceDuration', dict(stealTimePrevious=None, stealTimeFollowing=None, slash=False), 'acc'),
                ('GraceDuration', dict(stealTimePrevious=None, stealTimeFollowing=None, slash=None), 'unacc')):
            for ty in ('eighth', '16th', 'quarter', '32nd', 'half'):
                for dots in (0, 1):
                    for isC in (False, True):
                        def rt():
                            du = M.dur(type=ty, dots=dots, ql=0.0, linked=False, cls=cls, **kw)
                            n = note(pitch('D', 4, None, None), du)
                            if isC:
                                c = M.gn('music21.chord.Chord', duration=du, __styled__=False)
                                c.attrs['notes'] = (n,)
                                e = wr(c, 'm21ChordToMei')
                            else:
                                e = wr(n)
                            x = d(d(M.r(M.reader(), 'chordFromElement' if isC else 'noteFromElement', e)).attrs['duration'])
                            return (M.attrs(e).get('grace'), x.cname, d(x.attrs['type']), d(x.attrs['dots']),
                                    d(x.attrs['slash']))
                        wc = 'AppoggiaturaDuration' if want == 'acc' else 'GraceDuration'
                        judge(rep, ip, f'grace {cls} {kw} {ty}+{dots} chord={isC}', 'M21ObjectConvert.m21DurationToMeiDurDotsGrace',
                              rt, lambda v: v == (want, wc, ty, dots, want == 'unacc'))
    rep.family('grace', 'accented and unaccented grace notes and their note values survive', graces, 100)

    # ------------------------------------------------------------------ chords
    def chords():
        sets = [[('C', 4, None, None), ('E', 4, 'flat', True), ('G', 4, 'sharp', False)],
                [('B', 3, 'natural', True), ('F', 5, 'double-sharp', True)],
                [('A', 2, None, None)],
                [('C', 4, 'sharp', True), ('D', 4, 'sharp', False), ('E', 4, None, None), ('F', 4, 'flat', True)]]
        for i, ps in enumerate(sets):
            def rt():
                c = M.gn('music21.chord.Chord', duration=M.dur(type='half', dots=1), __styled__=False)
                c.attrs['notes'] = tuple(note(pitch(*p), M.dur(type='quarter')) for p in ps)
                e = wr(c, 'm21ChordToMei')
                x = d(M.r(M.reader(), 'chordFromElement', e))
                return tuple(P(d(n).attrs['pitch']) for n in d(x.attrs['notes']))
            judge(rep, ip, f'chord {i}', 'M21ObjectConvert.m21ChordToMei / MeiReader.chordFromElement', rt,
                  lambda v: v == tuple(ps))
    rep.family('chord', 'every note of a chord is written and read back, in order', chords, 4)

    # ------------------------------------------------------------------ tuplets
    def tuplets():
        for a, n in TUPS:
            for kinds in (('note',) * 3, ('rest', 'note', 'note'), ('note', 'chord', 'rest'), ('note',)):
                for br in (True, False, None):
                    for show in (('number', None), ('number', 'number'), (None, None)):
                        for pl in ('above', 'below', None):
                            if not thorough and (kinds != ('note',) * 3 and (br is not True or pl) or
                                                 (a, n) not in ((3, 2), (5, 4), (12, 8)) and (br is not True or pl)):
                                continue

                            def rt():
                                at = ADict({})
                                st = tup(a, n, bracket=br, tupletActualShow=show[0], tupletNormalShow=show[1], placement=pl)
                                M.w('fillInTupletAttributes', st, at)
                                els = []
                                for i, k in enumerate(kinds):
                                    if k == 'rest':
                                        els.append(M.E('rest', {'dur': '8'}))
                                    elif k == 'chord':
                                        els.append(M.E('chord', {'dur': '8'}, M.E('note', {'pname': 'c', 'oct': '4'})))
                                    else:
                                        els.append(M.E('note', {'pname': 'd', 'oct': '4', 'dur': '8'}))
                                e = M.E('tuplet', dict(at.d), *els)
                                rd = M.reader()
                                out = d(M.r(rd, 'tupletFromElement', e)).v
                                res = []
                                for x in out:
                                    du = d(d(x).attrs['duration'])
                                    t = d(du.attrs['tuplets'][-1])
                                    res.append((d(du.attrs['type']), d(du.attrs['quarterLength']), len(du.attrs['tuplets']),
                                                d(t.attrs['numberNotesActual']), d(t.attrs['numberNotesNormal']),
                                                d(t.attrs['type'])))
                                t = d(d(d(out[0]).attrs['duration']).attrs['tuplets'][0])
                                return (tuple(res), d(t.attrs['bracket']), d(t.attrs['tupletActualShow']),
                                        d(t.attrs['tupletNormalShow']),
                                        d(t.attrs['placement']), d(rd.attrs['inTupletCount']))
                            q = num(Fraction(1, 2) * Fraction(n, a))
                            tt = ['start'] + [None] * (len(kinds) - 2) + ['stop'] if len(kinds) > 1 else ['startStop']
                            wp = pl if not (br is False and show == (None, None)) else None
                            want = (tuple(('eighth', q, 1, a, n, x) for x in tt), br, show[0], show[1], wp, 0)
                            judge(rep, ip, f'tuplet {a}:{n} {kinds} bracket={br} numbers={show} {pl}',
                                  'M21ObjectConvert.fillInTupletAttributes / MeiReader.tupletFromElement / scaleToTuplet',
                                  rt, lambda v: v == want)
    rep.family('tuplet', 'the ratio of a tuplet scales each member exactly; first and last are marked; bracket, number and '
               'placement survive', tuplets, 100)

    # ------------------------------------------------------------------ time stamps
    def tstamps():
        f = 'floatToStringWithDecimalPlacesMinMax'
        for meter in ((4, 4), (6, 8), (12, 8), (3, 2), (12, 16), (18, 8), None):
            ts = None if meter is None else mk(ip, 'music21.meter.TimeSignature', numerator=meter[0], denominator=meter[1])
            end = 4 if meter is None else Fraction(4 * meter[0], meter[1])
            for den in (1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 16, 24, 32, 48, 64):
                step = 1 if thorough else max(1, den // 5)
                for k in range(0, int(end * den) + 1, step):
                    o = num(Fraction(k, den))

                    def rt():
                        s = M.w(f, M.w('_offsetToBeat', o, ts), 1, 6)
                        rd = M.shared_reader(activeMeter=ts)
                        a = d(M.r(rd, '_tstampToOffset', s))
                        sk, b = d(M.r(rd, '_tstamp2ToMeasSkipAndOffset', f'3m+{d(s)}'))
                        return frac(a), d(sk), frac(d(b))
                    judge(rep, ip, f'offset {o} in {meter}', 'M21ObjectConvert._offsetToBeat / MeiReader._tstampToOffset',
                          rt, lambda v: v == (Fraction(k, den), 3, Fraction(k, den)))
    rep.family('tstamp', 'every offset in the measure, written as a time stamp, is read back exactly', tstamps, 500)
    rep.use(ip)
