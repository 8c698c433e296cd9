"""Harness: the analyses a Humdrum file goes through when it is read, interpreted on a file skeleton."""
from __future__ import annotations
from props.common import *


class HF:
    """A file of the given class after readString (and analyzeNotation)."""

    def __init__(self, ip, text, cls='HumdrumFileContent', notation=True):
        self.ip = ip
        self.obj = ip.instantiate(ip.cls(cls), [], {})
        self.cls = cls
        self.valid = self.m('readString', text)
        if notation:
            # HumdrumFile sets this in readString's caller, before the notation is analysed
            kern = [t for i in range(len(self.lines)) for t in self.toks(i) if self.text(t) == '**kern']
            ip.setattr(self.obj, '_staffStarts', AList(list(reversed(kern))))
            self.m('analyzeNotation')

    def m(self, name, *a):
        ip = self.ip
        f = ip.fn(self.cls, name)
        return ip.deref(ip.call(FuncRef(f.node, f.mod, f.cls, None if f.is_static else self.obj) if hasattr(f, 'is_static')
                                else FuncRef(f.node, f.mod, f.cls, self.obj), list(a), {}))

    def get(self, o, name):
        return self.ip.deref(self.ip.getattr(o, name))

    @property
    def lines(self):
        return [self.ip.deref(x) for x in self.ip.deref(self.obj.attrs['_lines'] if isinstance(self.obj, Obj) else
                                                         self.ip.deref(self.obj).attrs['_lines']).v]

    def toks(self, i):
        return [self.ip.deref(x) for x in self.ip.deref(self.lines[i].attrs['_tokens']).v]

    def tok(self, i, j):
        return self.toks(i)[j]

    def find(self, text, nth=0):
        for i in range(len(self.lines)):
            for t in self.toks(i):
                if self.text(t) == text:
                    if nth == 0:
                        return t
                    nth -= 1
        return None

    def text(self, t):
        return self.ip.deref(t.attrs.get('_text'))

    def pos(self, t):
        t = self.ip.deref(t)
        for i in range(len(self.lines)):
            for j, u in enumerate(self.toks(i)):
                if u is t:
                    return (i, j)
        return None

    def tm(self, t, name, *a):
        ip = self.ip
        f = ip.fn('HumdrumToken', name)
        return ip.deref(ip.call(FuncRef(f.node, f.mod, f.cls, t), list(a), {}))

    def val(self, t, *keys):
        """getValue of a HumHash"""
        return self.tm(t, 'getValue', *keys)

    def val2(self, ps):
        """the text of a parameter set"""
        d = self.ip.deref
        ps = d(ps)
        names = [d(d(x).v[0]) for x in d(ps.attrs['_parameters']).v]
        return d(ps.attrs['_ns2']) + ':' + ','.join(names)
