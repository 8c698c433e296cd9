"""Harness for the MEI rules: the writer fills an abstract tree, the tree is handed to the reader's methods."""
from __future__ import annotations
import os
from props.common import *
from sa.core import ModuleInfo

NS = '{http://www.music-encoding.org/ns/mei}'
XMLID = '{http://www.w3.org/XML/1998/namespace}id'
XMLNS = '{http://www.w3.org/XML/1998/namespace}'
ET = 'xml.etree.ElementTree'
STUB = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'sa', 'stubs', 'etree.py')


class MEI:
    def __init__(self, ip):
        self.ip = ip
        ip.repo.ext[ET] = ModuleInfo(ET, STUB, True)
        ip.inline_ext.add(ET)
        self.noise = 0

    # ---- trees
    def E(self, tag, attrib=None, *kids, text=None, tail=None):
        """An element as the XML parser delivers it."""
        ip = self.ip
        a = ADict({})
        for k, v in (attrib or {}).items():
            a.d[XMLNS + k[4:] if k.startswith('xml:') else k] = v
        e = ip.instantiate(ip.cls(ET + '.Element'), [NS + tag, a], {})
        o = ip.deref(e)
        o.attrs['text'] = text
        o.attrs['tail'] = tail
        ip.deref(o.attrs['kids']).v.extend(kids)
        return e

    def tb(self):
        return self.ip.instantiate(self.ip.cls('DebugTreeBuilder'), [], {})

    def parsed(self, e):
        """What the parser makes of an element the writer built (namespaces on tags and on xml:id, '' text is None)."""
        ip = self.ip
        o = ip.deref(e)
        kids = [self.parsed(k) for k in ip.deref(o.attrs['kids']).v]
        at = ip.deref(o.attrs['attrib'])
        for k, v in at.d.items():
            v = ip.deref(v)
            if not isinstance(v, (str, Unk)):
                ip.raise_(f'NotText:{o.attrs["tag"]}@{k}')
        return self.E(ip.deref(o.attrs['tag']), dict(at.d), *kids, text=ip.deref(o.attrs['text']) or None,
                      tail=ip.deref(o.attrs['tail']) or None)

    def built(self, tb):
        """The root element the writer built, parsed."""
        ip = self.ip
        o = ip.deref(ip.deref(tb).attrs['tb'])
        st = ip.deref(o.attrs['stack'])
        if st.v:
            ip.raise_('NotClosed:' + str([ip.deref(ip.deref(x).attrs['tag']) for x in st.v]))
        r = ip.deref(o.attrs['root'])
        return None if r is None else self.parsed(r)

    def attrs(self, e):
        return {k: self.ip.deref(v) for k, v in self.ip.deref(self.ip.deref(e).attrs['attrib']).d.items()}

    def tag(self, e):
        return self.ip.deref(self.ip.deref(e).attrs['tag']).split('}')[-1]

    def kids(self, e):
        return list(self.ip.deref(self.ip.deref(e).attrs['kids']).v)

    # ---- writer and reader calls
    def w(self, name, *a, **k):
        return self.ip.call(self.ip.fn('M21ObjectConvert', name), list(a), k)

    def reader(self, **kw):
        ip = self.ip
        r = d_ = ip.deref(ip.instantiate(ip.cls('MeiReader'), [], {}))
        d_.attrs['currVoiceId'] = '1'
        d_.attrs['topPartN'] = '1'
        d_.attrs.update(kw)
        return r

    def shared_reader(self, **kw):
        """One reader object for rules on functions that keep no state."""
        if not hasattr(self, '_shared'):
            self._shared = self.reader()
        self._shared.attrs.update(kw)
        return self._shared

    def r(self, rd, name, *a, **k):
        self.ip.fn('MeiReader', name)
        return self.ip.call(self.ip.getattr(rd, name), list(a), k)

    # ---- models of music21 objects
    def install(self):
        ip = self.ip
        ip.ctor_models['music21.duration.Duration'] = self._duration
        ip.ctor_models['music21.pitch.Pitch'] = self._pitch
        ip.ctor_models['music21.pitch.Accidental'] = self._accidental
        ip.models['music21.pitch.standardizeAccidentalName'] = lambda ip_, a, k: self._std(ip_.deref(a[0]))
        ip.models['music21.pitch.isValidAccidentalName'] = lambda ip_, a, k: self._valid(ip_.deref(a[0]))
        ip.models['music21.duration.convertTypeToNumber'] = self._type_number
        for c in ('Note', 'Rest', 'Unpitched'):
            ip.ctor_models['music21.note.' + c] = self._gn('music21.note.' + c)
        ip.ctor_models['music21.chord.Chord'] = self._gn('music21.chord.Chord')
        ip.method_models[('Duration', 'set:dots')] = self._set_dots
        ip.method_models[('Duration', 'set:quarterLength')] = self._set_ql
        ip.method_models[('Duration', 'set:type')] = self._set_type
        for c in ('Note', 'Unpitched', 'Chord', 'Rest'):
            ip.method_models[(c, 'getGrace')] = self._get_grace
            ip.method_models[(c, 'getSpannerSites')] = lambda ip_, o, a, k: o.attrs.get('__spanners__') or AList([])
            ip.attr_models[(c, 'hasStyleInformation')] = lambda ip_, o: o.attrs.get('__styled__', True)
        ip.method_models[('Tuplet', 'tupletMultiplier')] = lambda ip_, o, a, k: num(o.attrs['__mult__'])
        ip.method_models[('Unpitched', 'displayPitch')] = lambda ip_, o, a, k: o.attrs['__dp__']
        ip.attr_models[('Pitch', 'implicitOctave')] = lambda ip_, o: (
            4 if ip_.deref(o.attrs['octave']) is None else o.attrs['octave'])
        model(ip, 'M21Utilities', 'adjustMusic21Behavior', lambda ip_, a, k: None)
        model(ip, 'M21Utilities', 'isIn', lambda ip_, a, k: True)
        model(ip, 'M21Utilities', 'getXmlId', lambda ip_, a, k: (
            ip_.deref(a[0]).attrs.get('__xmlid__') or (ip_.deref(a[1]) if len(a) > 1 and False else '')))

    def _acc_tables(self):
        m = self.ip.module('music21.pitch')
        return (self.ip.mod_attr(m, 'accidentalNameToModifier').d, self.ip.mod_attr(m, 'alternateNameToAccidentalName').d)

    def _std(self, n):
        if not isinstance(n, str):
            return Unk('accname')
        mod, alt = self._acc_tables()
        if n in mod:
            return n
        for k, v in mod.items():
            if v == n:
                return k
        if n in alt:
            return alt[n]
        self.ip.raise_('AccidentalException')

    def _valid(self, n):
        if not isinstance(n, str):
            return Unk('accvalid')
        mod, alt = self._acc_tables()
        return n in mod or n in mod.values() or n in alt

    def _accidental(self, ip, c, a, k):
        n = ip.deref(a[0]) if a else ip.deref(k.get('specifier', 'natural'))
        return self.accid(n)

    def accid(self, n, status=None):
        n = self._std(n)
        if isinstance(n, Unk):
            return mk(self.ip, 'music21.pitch.Accidental', name=n, displayStatus=status)
        return mk(self.ip, 'music21.pitch.Accidental', name=n, modifier=self._acc_tables()[0][n], displayStatus=status,
                  alter=ALTER[n], displayLocation='normal')

    def _pitch(self, ip, c, a, k):
        if not a and 'name' not in k:
            return mk(ip, 'music21.pitch.Pitch', step='C', octave=None, accidental=None)
        n = ip.deref(a[0] if a else k['name'])
        if not isinstance(n, str):
            return mk(ip, 'music21.pitch.Pitch')
        o = ip.deref(k.get('octave'))
        acc = ip.deref(k.get('accidental'))
        body = n[1:]
        digits = ''
        while body and body[-1].isdigit():
            digits = body[-1] + digits
            body = body[:-1]
        if digits:
            o = int(digits)
        if isinstance(acc, str):
            acc = self.accid(acc)
        if body:
            acc = self.accid(body)
        return mk(ip, 'music21.pitch.Pitch', step=n[0].upper(), octave=o, accidental=acc,
                  name=n[0].upper() + (acc.attrs['modifier'] if acc is not None and 'modifier' in acc.attrs else ''))

    def dur(self, ql=None, type=None, dots=0, linked=True, tuplets=(), cls='Duration', **kw):
        o = mk(self.ip, 'music21.duration.' + cls, linked=linked, tuplets=tuple(tuplets), isGrace=cls != 'Duration', **kw)
        if type is not None:
            o.attrs.update(type=type, dots=dots)
            if ql is None:
                ql = Fraction(M21_TYPES[type]) * Fraction(2 ** (dots + 1) - 1, 2 ** dots)
                for t in tuplets:
                    ql *= t.attrs['__mult__']
                ql = num(ql)
            o.attrs['quarterLength'] = ql
        else:
            self._from_ql(o, ql)
        return o

    def _from_ql(self, o, ql):
        if isinstance(ql, (int, float, Fraction)) and not isinstance(ql, bool):
            q = Fraction(ql).limit_denominator(65535)
            o.attrs['quarterLength'] = num(q)
            if o.attrs.get('linked') is False:
                return
            if q == 0:
                o.attrs.update(type='zero', dots=0)
                return
            for t, v in M21_TYPES.items():
                for dots in range(0, 5):
                    if v and v * Fraction(2 ** (dots + 1) - 1, 2 ** dots) == q:
                        o.attrs.update(type=t, dots=dots)
                        return
            o.attrs.update(type=Unk('durtype'), dots=0 if True else 0)
        else:
            o.attrs.update(quarterLength=Unk('ql'), type=Unk('durtype'), dots=Unk('dots'))

    def _duration(self, ip, c, a, k):
        x = ip.deref(a[0]) if a else ip.deref(k.get('quarterLength', k.get('typeOrDuration')))
        if isinstance(x, str) or 'type' in k:
            t = x if isinstance(x, str) else ip.deref(k['type'])
            if t not in M21_TYPES:
                return mk(ip, 'music21.duration.Duration')
            return self.dur(type=t, dots=ip.deref(k.get('dots', 0)))
        return self.dur(x if x is not None else 0.0)

    def _recalc(self, o):
        t, n = o.attrs.get('type'), o.attrs.get('dots')
        if not o.attrs.get('linked', True):
            return
        if isinstance(t, str) and isinstance(n, int):
            q = Fraction(M21_TYPES[t]) * Fraction(2 ** (n + 1) - 1, 2 ** n)
            for tp in o.attrs.get('tuplets') or ():
                q *= self.ip.deref(tp).attrs.get('__mult__', 1)
            o.attrs['quarterLength'] = num(q)
        else:
            o.attrs['quarterLength'] = Unk('ql')

    def _set_dots(self, ip, o, a, k):
        o.attrs['dots'] = ip.deref(a[0])
        self._recalc(o)

    def _set_type(self, ip, o, a, k):
        o.attrs['type'] = ip.deref(a[0])
        self._recalc(o)

    def _set_ql(self, ip, o, a, k):
        self._from_ql(o, ip.deref(a[0]))

    def _type_number(self, ip, a, k):
        t = ip.deref(a[0])
        if isinstance(t, str) and t in M21_TYPES and M21_TYPES[t]:
            return float(Fraction(4) / M21_TYPES[t])
        return Unk('typenum')

    def _gn(self, cls):
        def ctor(ip, c, a, k):
            o = self.gn(cls)
            for kk, v in k.items():
                o.attrs[kk] = v
            if a:
                o.attrs['__arg__'] = a[0]
            if 'displayName' in k:
                o.attrs['__dp__'] = self._pitch(ip, None, [k['displayName']], {})
            if cls.endswith('Chord'):
                ns = ip.deref(k.get('notes', a[0] if a else AList([])))
                if isinstance(ns, AList):
                    o.attrs['notes'] = tuple(ns.v)
                    o.attrs['pitches'] = tuple(ip.deref(n).attrs.get('pitch') for n in ns.v)
            return o
        return ctor

    def gn(self, cls, **kw):
        d = dict(articulations=AList([]), expressions=AList([]), lyrics=AList([]), tie=None, notehead='normal',
                 stemDirection='unspecified', beams=mk(self.ip, 'music21.beam.Beams'), stepShift=0,
                 style=self.nstyle())
        if cls.endswith('Chord'):
            d['notes'] = ()
        d.update(kw)
        o = mk(self.ip, cls, **d)
        o.absent = {'mei_in_ftrem', 'mei_stem_mod', 'mei_breaksec', 'placement', 'mei_handled_already'}
        return o

    def nstyle(self, cls='NoteStyle', **kw):
        d = dict(hideObjectOnPrint=False, color=None, absoluteY=None, absoluteX=None)
        ab = {'placement', 'alignVertical'}
        if cls == 'NoteStyle':
            d['noteSize'] = None
        if cls.startswith('TextStyle'):
            d.update(fontStyle=None, fontWeight=None, fontSize=None, fontFamily=AList([]), justify=None, alignHorizontal=None,
                     alignVertical=None, enclosure=None)
            ab = {'placement'}
        if cls == 'TextStylePlacement':
            d['placement'] = None
            ab = set()
        d.update(kw)
        o = mk(self.ip, 'music21.style.' + cls, **d)
        o.absent = ab
        return o

    def _get_grace(self, ip, o, a, k):
        ap = ip.deref(k.get('appoggiatura', a[0] if a else False))
        n = Obj(o.cls, dict(o.attrs))
        n.open = o.open
        n.absent = set(o.absent)
        d0 = ip.deref(o.attrs['duration'])
        cls = 'AppoggiaturaDuration' if ap else 'GraceDuration'
        n.attrs['duration'] = mk(ip, 'music21.duration.' + cls, type=d0.attrs.get('type'), dots=d0.attrs.get('dots'),
                                 linked=False, quarterLength=0.0, isGrace=True, slash=True, tuplets=(),
                                 stealTimePrevious=None, stealTimeFollowing=None)
        return n


ALTER = {'natural': 0.0, 'sharp': 1.0, 'double-sharp': 2.0, 'triple-sharp': 3.0, 'quadruple-sharp': 4.0, 'flat': -1.0,
         'double-flat': -2.0, 'triple-flat': -3.0, 'quadruple-flat': -4.0, 'half-sharp': 0.5,
         'one-and-a-half-sharp': 1.5, 'half-flat': -0.5, 'one-and-a-half-flat': -1.5}


def num(fr):
    fr = Fraction(fr)
    d = fr.denominator
    return float(fr) if d & (d - 1) == 0 else fr
