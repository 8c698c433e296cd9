"""Statements about a score, one string each, from any view of it (the modelled score of the analysis)."""
from __future__ import annotations
from fractions import Fraction

SHORT = {'duplex-maxima': 'X', 'maxima': 'M', 'longa': 'L', 'breve': 'B', 'whole': 'w', 'half': 'h', 'quarter': 'q', 'eighth': 'e',
         '16th': 's', '32nd': 't', '64th': 'x', '128th': 'y', '256th': 'z', 'zero': '0', 'complex': '!', 'inexpressible': '!!'}
UNK = '<?>'


def fr(x):
    if isinstance(x, bool) or not isinstance(x, (int, float, Fraction)):
        return UNK
    f = Fraction(x).limit_denominator(5040)
    return str(f)


class Facts:
    def __init__(self, V):
        self.V = V

    def g(self, o, *names):
        v = self.V.get(o, *names)
        return UNK if self.V.unknown(v) else v

    def s(self, o, *names):
        v = self.g(o, *names)
        return '-' if v is None or v == '' else str(v)

    def num(self, o, *names):
        v = self.g(o, *names)
        return v if v in (UNK, None) else fr(v)

    # ---------------------------------------------------------------- notes
    def dur(self, n):
        V = self.V
        du = V.get(n, 'duration')
        out = SHORT.get(self.s(du, 'type'), self.s(du, 'type'))
        d = self.g(du, 'dots')
        out += '.' * d if isinstance(d, int) else UNK
        for t in V.lst(V.get(du, 'tuplets')):
            out += f" {self.s(t, 'numberNotesActual')}:{self.s(t, 'numberNotesNormal')}"
            out += {'start': '(', 'stop': ')', 'startStop': '()', '-': ''}.get(self.s(t, 'type'), '?')
        if self.g(du, 'isGrace'):
            out = 'g' + out + ('/' if self.g(du, 'slash') else '')
        return out

    def tupstyle(self, n):
        V = self.V
        out = []
        for t in V.lst(V.get(n, 'duration', 'tuplets')):
            if self.g(t, 'type') in ('start', 'startStop'):
                out.append(f"bracket={self.s(t, 'bracket')} number={self.s(t, 'tupletActualShow')} at={self.s(t, 'placement')}")
        return out

    def beams(self, n):
        V = self.V
        if not V.isa(n, 'NotRest'):
            return ''
        out = ''
        for b in V.lst(V.get(n, 'beams', 'beamsList')):
            out += {'start': '[', 'continue': '=', 'stop': ']', 'partial': {'left': '<', 'right': '>'}.get(
                self.s(b, 'direction'), '|')}.get(self.s(b, 'type'), '?')
        return out

    def pitch(self, n):
        V = self.V
        if V.isa(n, 'Rest'):
            return 'r'
        if V.isa(n, 'Unpitched'):
            return 'u' + self.s(n, 'displayStep') + self.s(n, 'displayOctave')
        if V.isa(n, 'ChordBase'):
            return '+'.join(self.pitch(x) for x in V.lst(V.get(n, 'notes')))
        return self.s(n, 'pitch', 'nameWithOctave')

    def ties(self, n):
        V = self.V
        if V.isa(n, 'Rest'):
            return '-'
        ns = V.lst(V.get(n, 'notes')) if V.isa(n, 'ChordBase') else [n]
        out = []
        for x in ns:
            t = V.get(x, 'tie')
            out.append('-' if t is None else self.s(t, 'type'))
        return ','.join(out)

    def tiestyle(self, n):
        V = self.V
        ns = [] if V.isa(n, 'Rest') else V.lst(V.get(n, 'notes')) if V.isa(n, 'ChordBase') else [n]
        return ','.join(f"{self.s(t, 'placement')}/{self.s(t, 'style')}" for t in (V.get(x, 'tie') for x in ns) if t is not None)

    def marks(self, n):
        V = self.V
        out = []
        for x in V.lst(V.get(n, 'expressions')) + V.lst(V.get(n, 'articulations')):
            k = V.kind(x)
            if V.isa(x, 'Ornament') and k != 'Tremolo' and not V.isa(x, 'Fermata'):
                a = [self.acc(y) for y in ('accidental', 'upperAccidental', 'lowerAccidental') for y in
                     [V.get(x, y) if V.has(x, y) else None]]
                k += '(' + ','.join(a) + ')' if any(z != '-' for z in a) else ''
                if V.has(x, 'ornamentalPitches'):
                    op = [self.s(y, 'nameWithOctave') for y in V.lst(V.get(x, 'ornamentalPitches'))]
                    k += '~' + ','.join(op) if op else ''
            if V.isa(x, 'Turn'):
                k += {False: '', True: ' delayed'}.get(self.g(x, 'isDelayed'), UNK)
            if k == 'Tremolo':
                k += self.s(x, 'numberOfMarks')
            if k == 'Fermata':
                k += ':' + self.s(x, 'shape') + ':' + self.s(x, 'type')
            if k == 'ArpeggioMark':
                k += ':' + self.s(x, 'type')
            if k in ('TextExpression', 'RehearsalMark'):
                k += repr(self.g(x, 'content'))
            pl = self.s(x, 'placement') if V.has(x, 'placement') else '-'
            out.append(k + ('' if pl == '-' else '@' + pl) + self.styled(x, 'hideObjectOnPrint', 'color'))
        return sorted(out)

    def styled(self, x, *names):
        """the named style settings that are not the usual ones"""
        V = self.V
        st = V.get(x, 'style') if V.has(x, 'style') else None
        out = ''
        for n in names if st is not None and not V.unknown(st) else ():
            v = self.g(st, n) if V.has(st, n) else None
            if v not in (None, False, ''):
                out += f' {n}={v}'
        return out

    def acc(self, a):
        if a is None or self.V.unknown(a):
            return '-' if a is None else UNK
        st = self.g(a, 'displayStatus')
        return self.s(a, 'name') + {True: '!', False: '', None: '?'}.get(st, UNK)

    def look(self, n):
        """stem, head, color, visibility"""
        V = self.V
        out = []
        if V.isa(n, 'NotRest'):
            for a, dflt in (('stemDirection', 'unspecified'), ('notehead', 'normal'), ('noteheadFill', 'None')):
                v = self.g(n, a)
                if str(v) != dflt:
                    out.append(f'{a}={v}')
        for a in ('color', 'hideObjectOnPrint', 'noteSize'):
            v = self.g(n, 'style', a) if V.has(V.get(n, 'style'), a) else None
            if v not in (None, False, ''):
                out.append(f'{a}={v}')
        if V.isa(n, 'Rest'):
            sh = self.g(n, 'stepShift')
            if sh not in (0, None):
                out.append(f'shift={sh}')
        return ' '.join(out)

    def accs(self, n):
        V = self.V
        if V.isa(n, 'Rest') or V.isa(n, 'Unpitched') or V.isa(n, 'PercussionChord'):
            return '-'
        ns = V.lst(V.get(n, 'notes')) if V.isa(n, 'ChordBase') else [n]
        return ','.join(self.acc(V.get(x, 'pitch', 'accidental')) +
                        (':' + self.s(V.get(x, 'pitch', 'accidental'), 'displayStyle')
                         if V.get(x, 'pitch', 'accidental') is not None else '') for x in ns)

    # ---------------------------------------------------------------- others
    def other(self, e):
        V = self.V
        k = V.kind(e)
        if V.isa(e, 'Clef'):
            return f"clef {self.s(e, 'sign')}{self.s(e, 'line')}" + (f"^{self.g(e, 'octaveChange')}" if self.g(e, 'octaveChange') else '')
        if V.isa(e, 'KeySignature'):
            return f"key {self.s(e, 'sharps')}" + (f" {self.s(e, 'tonic', 'name')} {self.s(e, 'mode')}" if V.isa(e, 'Key') else '')
        if V.isa(e, 'TimeSignature'):
            return f"time {self.s(e, 'ratioString')}" + (f" {self.s(e, 'symbol')}" if self.g(e, 'symbol') else '')
        if V.isa(e, 'Dynamic'):
            return f"dynamic {self.s(e, 'value')}@{self.s(e, 'placement')}" + self.styled(e, 'alignVertical', 'justify', 'color')
        if V.isa(e, 'MetronomeMark'):
            return f"tempo {self.s(e, 'text')} {self.num(e, 'number')} {self.s(e, 'referent', 'type') if V.get(e, 'referent') is not None else '-'}" + \
                ('.' * self.g(e, 'referent', 'dots') if V.get(e, 'referent') is not None and isinstance(self.g(e, 'referent', 'dots'), int)
                 else '') + f"@{self.s(e, 'placement')}" + self.styled(e, 'color')
        if V.isa(e, 'TempoText'):
            return f"tempotext {self.s(e, 'text')}"
        if V.isa(e, 'RehearsalMark'):
            return f"rehearsal {self.s(e, 'content')}" + self.styled(e, 'placement', 'color', 'justify', 'fontStyle', 'fontSize')
        if V.isa(e, 'TextExpression'):
            st = V.get(e, 'style')
            return f"text {self.s(e, 'content')}@{self.s(e, 'placement')} {self.s(st, 'fontStyle')} {self.s(st, 'fontWeight')} {self.s(st, 'justify')} {self.s(st, 'color')}" + \
                self.styled(e, 'alignVertical')
        if V.isa(e, 'Instrument'):
            tr = V.get(e, 'transposition')
            return f"instrument {self.s(e, 'instrumentName')}" + ('' if tr is None or V.unknown(tr) else ' transposing ' + self.s(tr, 'directedName'))
        if V.isa(e, 'ChordSymbol'):
            return f"chordsymbol {self.s(e, 'figure')}"
        if V.isa(e, 'PageLayout') or V.isa(e, 'SystemLayout'):
            return k
        if V.isa(e, 'StaffLayout'):
            return f"stafflayout lines={self.s(e, 'staffLines')} hidden={self.s(e, 'hidden')}"
        return k

    def bar(self, b):
        if b is None:
            return '-'
        V = self.V
        if V.unknown(b):
            return UNK
        if V.isa(b, 'Repeat'):
            return f"repeat-{self.s(b, 'direction')}"
        return self.s(b, 'type')

    def where(self, e):
        return self.loc.get(id(e), self.V.kind(e))

    def all(self, score):
        """{aspect: [fact…]}"""
        V = self.V
        A = {k: [] for k in ('parts', 'measures', 'notes', 'beams', 'ties', 'tiestyle', 'marks', 'look', 'accs', 'tuplets', 'others',
                             'spanners', 'groups', 'lyrics', 'order')}
        self.loc = {}
        spanners = []
        stafflist = []
        for o, e in V.items(score):
            if V.isa(e, 'Spanner'):
                spanners.append(e)
        self.keep = []
        for pi, p in enumerate(V.parts(score)):
            pn = f'P{pi + 1}'
            self.loc[id(p)] = pn
            self.keep.append(p)
            A['parts'].append(f"{pn} name={self.s(p, 'partName')} abbrev={self.s(p, 'partAbbreviation')}")
            for o, e in V.items(p):
                if V.isa(e, 'Spanner'):
                    spanners.append(e)
                elif not V.isa(e, 'Measure'):
                    A['others'].append(f'{pn} {fr(o)} {self.other(e)}')
                    self.loc[id(e)] = f'{pn} {fr(o)} {V.kind(e)}'
            for mo, m in V.measures(p):
                mn = f"{pn} m{self.s(m, 'number')}{'' if not self.g(m, 'numberSuffix') else self.s(m, 'numberSuffix')}"
                self.loc[id(m)] = mn
                A['measures'].append(f"{mn} at {fr(mo)} length {self.num(m, 'duration', 'quarterLength')} left "
                                     f"{self.bar(V.get(m, 'leftBarline'))} right {self.bar(V.get(m, 'rightBarline'))} "
                                     f"pad {self.num(m, 'paddingLeft')},{self.num(m, 'paddingRight')}")
                layers = []
                direct = []
                vi = 0
                for o, e in V.items(m):
                    if V.isa(e, 'Spanner'):
                        spanners.append(e)
                    elif V.isa(e, 'Voice'):
                        vi += 1
                        layers.append((f"v{vi}", o, V.items(e)))
                        for o2, e2 in V.items(e):
                            if V.isa(e2, 'Spanner'):
                                spanners.append(e2)
                    elif V.isa(e, 'Barline'):
                        pass
                    else:
                        direct.append((o, e))
                layers.append(('', 0, direct))
                for ln, lo, its in layers:
                    seq = [self.pitch(e) for o, e in its if V.isa(e, 'GeneralNote') and not V.isa(e, 'ChordSymbol')]
                    if seq:
                        A['order'].append(f"{mn}{ln}: {' '.join(seq)}")
                    for o, e in its:
                        if V.isa(e, 'Spanner') or V.isa(e, 'Barline'):
                            continue
                        at = fr(Fraction(fr(o)) + Fraction(fr(lo)))
                        if not V.isa(e, 'GeneralNote') or V.isa(e, 'ChordSymbol'):
                            self.loc[id(e)] = f'{mn}{ln} {at} {V.kind(e)}'
                            A['others'].append(f'{mn}{ln} {at} {self.other(e)}')
                            continue
                        w = f'{mn}{ln} {at} {self.pitch(e)}'
                        self.loc[id(e)] = w
                        A['notes'].append(f'{w} {self.dur(e)}')
                        b = self.beams(e)
                        if b:
                            A['beams'].append(f'{w} {b}')
                        t = self.ties(e)
                        if t.strip('-,'):
                            A['ties'].append(f'{w} {t}')
                            A['tiestyle'].append(f'{w} {self.tiestyle(e)}')
                        for x in self.marks(e):
                            A['marks'].append(f'{w} {x}')
                        lk = self.look(e)
                        if lk:
                            A['look'].append(f'{w} {lk}')
                        if V.isa(e, 'ChordBase'):
                            for x in V.lst(V.get(e, 'notes')):
                                lk = self.look(x)
                                if lk:
                                    A['look'].append(f'{w} [{self.pitch(x)}] {lk}')
                        ac = self.accs(e)
                        if ac.strip('-,'):
                            A['accs'].append(f'{w} {ac}')
                        for x in self.tupstyle(e):
                            A['tuplets'].append(f'{w} {x}')
                        for ly in V.lst(V.get(e, 'lyrics')):
                            A['lyrics'].append(f"{w} {self.s(ly, 'number')} {self.s(ly, 'syllabic')} {self.s(ly, 'text')}"
                                               f"{' id=' + self.s(ly, 'identifier') if self.s(ly, 'identifier') != self.s(ly, 'number') else ''}")
        for sp in spanners:
            k = V.kind(sp)
            els = [self.where(x) for x in V.spanned(sp)]
            if k == 'StaffGroup':
                A['groups'].append(f"{'+'.join(els)} symbol={self.s(sp, 'symbol').replace('none', '-')} bars={self.s(sp, 'barTogether')} "
                                   f"name={self.s(sp, 'name')} abbrev={self.s(sp, 'abbreviation')}")
                continue
            d = k
            if k in ('RepeatBracket',):
                d += ' ' + self.s(sp, 'number')
            if k == 'Ottava':
                d += ' ' + self.s(sp, 'type') + (' sounding' if self.g(sp, 'transposing') is False else '')
            if k == 'Slur':
                ln = self.s(sp, 'style', 'lineStyle') if V.has(V.get(sp, 'style'), 'lineStyle') else '-'
                lt = self.s(sp, 'lineType') if V.has(sp, 'lineType') else '-'
                d += '' if lt in ('-', 'solid') else ' ' + lt
            if k == 'TremoloSpanner':
                d += ' ' + self.s(sp, 'numberOfMarks')
            pl = self.s(sp, 'placement') if k != 'Ottava' and V.has(sp, 'placement') else '-'
            d += ('' if pl == '-' else '@' + pl) + self.styled(sp, 'hideObjectOnPrint', 'color')
            A['spanners'].append(d + ': ' + ' .. '.join(els))
        return {k: sorted(v) for k, v in A.items()}


class RealView:
    """the same view of a real score (used by hand to compare the model with music21, never by a check)"""

    def get(self, o, *names):
        for n in names:
            o = getattr(o, n)
            if o is None:
                return None
        if type(o).__mro__[-2].__name__ in ('Enum', 'StrEnum') or 'Enum' in [c.__name__ for c in type(o).__mro__]:
            return o.value
        return o

    def unknown(self, v):
        return False

    def has(self, o, n):
        return hasattr(o, n)

    def lst(self, v):
        return list(v)

    def items(self, s):
        return [(s.elementOffset(e), e) for e in s.elements if s.elementOffset(e) != 'highestTime' and not isinstance(s.elementOffset(e), str)]

    def isa(self, e, name):
        return name in [c.__name__ for c in type(e).__mro__]

    def kind(self, e):
        return type(e).__name__

    def parts(self, s):
        return [e for o, e in self.items(s) if self.isa(e, 'Part')]

    def measures(self, p):
        return [(o, e) for o, e in self.items(p) if self.isa(e, 'Measure')]

    def spanned(self, sp):
        return list(sp.getSpannedElements())
