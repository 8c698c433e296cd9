"""Harness: music21's containers, notes and durations are modelled by code in sa/stubs/music21 (analysed like the repository)."""
from __future__ import annotations
import os
import re
from props.common import *
from sa.core import ModuleInfo

HERE = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'sa', 'stubs', 'music21')
STUBBED = sorted(f[:-3] for f in os.listdir(HERE) if f.endswith('.py'))
REAL = ('articulations', 'expressions', 'dynamics', 'tempo', 'clef', 'bar', 'repeat', 'text', 'layout', 'common.numberTools',
        'common.enums', 'common.misc', 'common.classTools')


def _is_num(ip, args, kw):
    v = ip.deref(args[0])
    if isinstance(v, Unk):
        return Unk('isNum')
    return isinstance(v, (int, float, Fraction)) and not isinstance(v, bool)


def _hyphen(ip, args, kw):
    v = ip.deref(args[0])
    r = ip.deref(args[1] if len(args) > 1 else kw.get('replacement', '-'))
    if isinstance(v, Unk) or isinstance(r, Unk):
        return Unk('camelCaseToHyphen')
    return re.sub('([a-z0-9])([A-Z])', r'\1' + r + r'\2', re.sub('(.)([A-Z][a-z]+)', r'\1' + r + r'\2', v)).lower()


def _classes(src, own, bases):
    """the names each class of the source has, and its bases"""
    parts = re.split(r'^class (\w+)(.*?):\s*$', src, flags=re.M | re.S)
    for i in range(1, len(parts), 3):
        body = parts[i + 2]
        end = re.search(r'^(?=[A-Za-z@_#])', body, flags=re.M)
        body = body[:end.start()] if end else body
        own.setdefault(parts[i], set()).update(re.findall(r'\bdef (\w+)', body), re.findall(r'self\.(\w+)', body),
                                               re.findall(r'^    (\w+)\s*[:=]', body, flags=re.M))
        bases.setdefault(parts[i], set()).update(b.split('.')[-1] for b in re.findall(r'[\w.]+', parts[i + 1]))


def _closure(c, own, bases, seen=None):
    seen = set() if seen is None else seen
    if c in seen:
        return set()
    seen.add(c)
    if c not in own:                    # nothing is known about it
        return set() if c in ('object', 'ABC', 'Exception', 'Protocol', 'Generic', 't', 'T', 'M21ObjType', 'list', 'SlottedObjectMixin', 'EqualSlottedObjectMixin', 'ComparableObject') else {'*'}
    out = set(own[c])
    for b in bases.get(c, ()):
        out |= _closure(b, own, bases, seen)
    return out


_CACHE = []


def _real_names():
    """the names in the modelled modules' own source, and those each class of theirs has"""
    if not _CACHE:
        names = set()
        own, bases = {}, {}
        for m in STUBBED:
            for cand in (f'{m}.py', f'{m}/__init__.py', f'{m}/base.py', f'{m}/core.py', f'{m}/iterator.py'):
                p = os.path.join(core.SITE, 'music21', cand)
                if os.path.exists(p):
                    src = open(p, encoding='utf-8').read()
                    names |= set(re.findall(r'\bdef (\w+)', src)) | set(re.findall(r'self\.(\w+)', src))
                    _classes(src, own, bases)
        for extra in ('scale/__init__.py',):            # bases of modelled classes
            _classes(open(os.path.join(core.SITE, 'music21', extra), encoding='utf-8').read(), own, bases)
        _CACHE.append((names, {c: _closure(c, own, bases) for c in own}))
    return _CACHE[0]


def install(ip):
    """Interpret music21's simple modules from their own source and its core from the model; what the model leaves out of a
    music21 class is unknown, not missing."""
    R = ip.repo
    names, classes = _real_names()
    for m in STUBBED:
        q = 'music21.' + m
        R.ext[q] = ModuleInfo(q, os.path.join(HERE, m + '.py'), True)
        ip.inline_ext.add(q)
    from props.c10 import properties, STUB
    R.ext['music21._metadata'] = ModuleInfo('music21._metadata', STUB, True)
    ip.inline_ext.add('music21._metadata')
    table = ADict({u: t for u, t in properties(ip).items()})
    ip.models['music21._metadata._props'] = lambda ip_, a, k: table
    for m in REAL:
        ip.inline_ext.add('music21.' + m)
    ip.models['music21.common.classTools.isNum'] = _is_num
    ip.models['music21.common.stringTools.camelCaseToHyphen'] = _hyphen
    ip.models['music21.common.camelCaseToHyphen'] = _hyphen
    ip.stub_names = names
    ip.stub_classes = classes
    return ip


class View:
    """Plain-Python view of a modelled score."""

    def __init__(self, ip):
        self.ip = ip

    def d(self, x):
        return self.ip.deref(x)

    def get(self, o, *names):
        for n in names:
            o = self.d(self.ip.getattr(o, n))
            if o is None or isinstance(o, Unk):
                return o
        return o

    def unknown(self, v):
        return isinstance(v, Unk)

    def has(self, o, n):
        o = self.d(o)
        if not isinstance(o, Obj):
            return False
        try:
            return not isinstance(self.d(self.ip.getattr(o, n)), Unk)
        except ARaise:
            return False

    def spanned(self, sp):
        return self.lst(self.get(sp, '_spanned'))

    def lst(self, v):
        v = self.d(v)
        if isinstance(v, tuple):
            return [self.d(x) for x in v]
        if isinstance(v, AList):
            return [self.d(x) for x in v.v]
        raise AnalysisError(f'not a list: {v!r}')

    def items(self, s):
        """(offset, element) of a stream, in order"""
        s = self.d(s)
        offs = {}
        for t in self.lst(s.attrs['_items']):
            t = self.lst(t) if not isinstance(t, tuple) else [self.d(x) for x in t]
            offs[id(t[1])] = t[0]
        els = self.lst(self.get(s, 'elements'))
        return [(offs[id(e)], e) for e in els]

    def isa(self, e, name):
        return isinstance(e, Obj) and name in [k.short for k in self.ip.mro(e.cls) if isinstance(k, ClassRef)]

    def kind(self, e):
        return e.cls.short

    def parts(self, score):
        return [e for o, e in self.items(score) if self.isa(e, 'Part')]

    def measures(self, part):
        return [(o, e) for o, e in self.items(part) if self.isa(e, 'Measure')]

    def voices(self, m):
        return [(o, e) for o, e in self.items(m) if self.isa(e, 'Voice')]
