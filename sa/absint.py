"""Disjunctive (trace-partitioned) constant propagation over Python source.

Nothing of the analysed program is imported or executed: this module walks syntax trees and
computes with abstract values.  A value is a known constant, a container whose shape is known, an
abstract object (class + attribute map), or Unk (top).  When a branch condition is not decided by
the abstract state both branches are analysed, each in its own partition; the result of an
analysis is the set of outcomes over all partitions.
"""
from __future__ import annotations
import ast
import re
import math
import html as _html
import operator
from fractions import Fraction
from . import core
from .core import ModuleInfo, Fn, AnalysisError

CONST = (str, int, float, bool, bytes, Fraction, type(None), complex)
MISSING = object()


# ----------------------------------------------------------------- values
class Unk:
    __slots__ = ('why', 'attrs', 'facts', 'cls')

    def __init__(self, why='?', cls=None):
        self.why = why
        self.attrs = {}
        self.facts = {}
        self.cls = cls

    def __repr__(self):
        if 'eq' in self.facts:
            return f'Unk={self.facts["eq"]!r}'
        return f'Unk({self.why})'


class AList:
    __slots__ = ('v', 'shared', 'open')

    def __init__(self, v=(), open=False):
        self.v = list(v)
        self.shared = None
        self.open = open

    def __repr__(self):
        return f'L{self.v!r}'


class ASet:
    __slots__ = ('v', 'shared', 'open', 'frozen')

    def __init__(self, v=(), open=False):
        self.v = list(v)
        self.shared = None
        self.open = open
        self.frozen = False

    def __repr__(self):
        return f'S{self.v!r}'


class ADict:
    __slots__ = ('d', 'shared', 'open', 'default')

    def __init__(self, d=None, open=False):
        self.d = dict(d or {})
        self.shared = None
        self.open = open
        self.default = None

    def __repr__(self):
        return f'D{self.d!r}'


class Mod:
    def __init__(self, name, info):
        self.name = name
        self.info = info
        self.cache = {}

    def __repr__(self):
        return f'<mod {self.name}>'


class ClassRef:
    def __init__(self, name, mod, node, outer=None):
        self.name = name            # qualified: module.Class
        self.short = name.rsplit('.', 1)[-1]
        self.mod = mod
        self.node = node
        self.cache = {}
        self._bases = None
        self.is_enum = False
        self.members = None
        self._mro = None
        self._names = None
        self._body = None

    def __repr__(self):
        return f'<class {self.name}>'


class FuncRef:
    __slots__ = ('node', 'mod', 'cls', 'self_', 'closure', 'name', 'qual')

    def __init__(self, node, mod, cls=None, self_=MISSING, closure=None, qual=None):
        self.node = node
        self.mod = mod
        self.cls = cls
        self.self_ = self_
        self.closure = closure
        self.name = getattr(node, 'name', '<lambda>')
        self.qual = qual or ((cls.name + '.' if cls else (mod.name + '.')) + self.name)

    def __repr__(self):
        return f'<func {self.qual}>'


class Ext:
    """An external (unmodelled) function / attribute path."""
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return f'<ext {self.name}>'


class BoundM:
    """Bound method of an abstract container / constant / modelled object."""
    __slots__ = ('obj', 'name')

    def __init__(self, obj, name):
        self.obj = obj
        self.name = name

    def __repr__(self):
        return f'<bm {self.obj!r}.{self.name}>'


class Obj:
    def __init__(self, cls, attrs=None, open=True, **kw):
        self.cls = cls              # ClassRef or str label
        self.attrs = dict(attrs or {})
        self.attrs.update(kw)
        self.open = open
        self.absent = ()            # attributes known not to exist

    @property
    def cname(self):
        return self.cls.short if isinstance(self.cls, ClassRef) else str(self.cls)

    def __repr__(self):
        a = {k: v for k, v in self.attrs.items() if not isinstance(v, Unk)}
        return f'<{self.cname} {a!r}>'


class EnumMember:
    __slots__ = ('cls', 'name', 'value', 'attrs')

    def __init__(self, cls, name, value):
        self.cls = cls
        self.name = name
        self.value = value
        self.attrs = {}

    def __hash__(self):
        return hash((self.cls.name, self.name))

    def __eq__(self, o):
        if isinstance(o, EnumMember):
            return o.cls.name == self.cls.name and o.name == self.name
        if isinstance(o, (int, str)) and self.is_val:
            return o == self.value
        return False

    @property
    def is_val(self):
        return self.cls.is_enum in ('int', 'str')

    def __repr__(self):
        return f'{self.cls.short}.{self.name}'


class Native:
    """A folded library value (regex match, compiled pattern, range ...)."""
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v

    def __repr__(self):
        return f'N{self.v!r}'


class SuperRef:
    def __init__(self, cls, self_):
        self.cls = cls
        self.self_ = self_


# ----------------------------------------------------------------- control
class _Return(Exception):
    def __init__(self, v):
        self.v = v


class _Break(Exception):
    pass


class _Continue(Exception):
    pass


class ARaise(Exception):
    """An exception raised by the analysed program."""
    def __init__(self, exc, node=None, frame=None):
        self.exc = exc
        self.node = node
        self.frame = frame

    @property
    def name(self):
        e = self.exc
        if isinstance(e, Obj):
            return e.cname
        if isinstance(e, ClassRef):
            return e.short
        if isinstance(e, Ext):
            return e.name.split('.')[-1]
        return str(e)

    def __repr__(self):
        return f'ARaise({self.name})'

    __str__ = __repr__


class Cut(Exception):
    """This partition was abandoned (bound reached)."""


class Budget(Exception):
    pass


class Outcome:
    def __init__(self, kind, value, events, conds):
        self.kind = kind      # 'return' | 'raise' | 'cut'
        self.value = value
        self.events = events
        self.conds = conds

    def __repr__(self):
        return f'{self.kind}:{self.value!r}'


class Frame:
    def __init__(self, func, mod, cls, closure):
        self.func = func
        self.mod = mod
        self.cls = cls
        self.closure = closure
        self.locals = {}
        self.yields = None
        self.globals_ = set()
        self.nonlocals = set()


BUILTIN_EXC = {}
for _n in dir(__builtins__ if not isinstance(__builtins__, dict) else object):
    pass
import builtins as _bi
for _n in dir(_bi):
    _v = getattr(_bi, _n)
    if isinstance(_v, type) and issubclass(_v, BaseException):
        BUILTIN_EXC[_n] = _v

BUILTIN_TYPES = {'str': str, 'int': int, 'float': float, 'bool': bool, 'list': list, 'dict': dict,
                 'tuple': tuple, 'set': set, 'frozenset': frozenset, 'bytes': bytes,
                 'object': object, 'type': type, 'complex': complex}

BINOPS = {ast.Add: operator.add, ast.Sub: operator.sub, ast.Mult: operator.mul,
          ast.Div: operator.truediv, ast.FloorDiv: operator.floordiv, ast.Mod: operator.mod,
          ast.Pow: operator.pow, ast.BitAnd: operator.and_, ast.BitOr: operator.or_,
          ast.BitXor: operator.xor, ast.LShift: operator.lshift, ast.RShift: operator.rshift}
CMPOPS = {ast.Lt: operator.lt, ast.LtE: operator.le, ast.Gt: operator.gt, ast.GtE: operator.ge}


def opfrac(x):
    """The documented normal form of music21's offsets: a float when the value is a dyadic
    rational, otherwise a Fraction with denominator <= 65535."""
    if x is None:
        return None
    if isinstance(x, str):
        raise TypeError
    f = Fraction(x)
    if isinstance(x, float) or f.denominator > 65535:
        f = f.limit_denominator(65535)
    d = f.denominator
    return float(f) if d & (d - 1) == 0 else f


def _decs(node):
    """the decorators of a function, as text"""
    d = getattr(node, '_vp_decs', None)
    if d is None:
        d = node._vp_decs = [ast.unparse(x) for x in node.decorator_list]
    return d


def _is_property_call(s, name):
    """name = property(getter, setter)"""
    return (isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Name) and s.value.func.id == 'property'
            and s.value.args and isinstance(s.value.args[0], ast.Name)
            and any(isinstance(x, ast.Name) and x.id == name for x in s.targets))


class Interp:
    def __init__(self, rp=None, max_paths=4000, max_steps=400000, max_depth=80):
        self.repo = rp or core.repo()
        self.mods: dict[str, Mod] = {}
        self.classes: dict[tuple, ClassRef] = {}
        self.models = dict(DEFAULT_MODELS)            # 'qualified.name' -> fn(interp, args, kw)
        self.method_models = dict(DEFAULT_METHOD_MODELS)  # (ClassShort, meth) -> fn(interp, self, args, kw)
        self.attr_models = {}                         # (ClassShort, attr) -> fn(interp, self)
        self.ctor_models = {}                         # 'music21.x.Y' -> fn(interp, cls, args, kw)
        self.inline_ext = set()                       # external modules whose code is interpreted
        self.ids = {}
        self.stub_names = set()                       # names that modelled external classes have but the model leaves out
        self.stub_classes = {}                        # external class name -> names it has, itself or from its bases
        self._setters = {}
        self._in_bases = 0
        self.max_paths = max_paths
        self.max_steps = max_steps
        self.max_depth = max_depth
        self.visited = set()
        self.total_steps = 0
        self.total_paths = 0
        self.cuts = 0
        self.cached_const = {}
        self.trace = []
        self.pos = 0
        self.events = []
        self.dirty = []
        self.depth = 0
        self.steps = 0
        self.stack = []
        self.unknown_iter_max = 1
        self.hook_unknown_call = None

    # ------------------------------------------------------------ partitioning
    def choose(self, n, label=None):
        if self.pos < len(self.trace):
            c = self.trace[self.pos][0]
        else:
            c = 0
            self.trace.append([0, n, label])
        self.pos += 1
        return c

    def explore(self, thunk):
        """Run thunk in every partition; returns the list of Outcomes."""
        outs = []
        self.trace = []
        npaths = 0
        while True:
            npaths += 1
            self.total_paths += 1
            self.pos = 0
            self.events = []
            self.steps = 0
            self.depth = 0
            self.stack = []
            self.dirty = []
            try:
                v = thunk()
                outs.append(Outcome('return', v, self.events, self._conds()))
            except ARaise as e:
                outs.append(Outcome('raise', e, self.events, self._conds()))
            except (Cut, RecursionError):
                self.cuts += 1
                outs.append(Outcome('cut', None, self.events, self._conds()))
            for holder, key in self.dirty:
                holder.cache.pop(key, None)
            self.total_steps += self.steps
            if npaths >= self.max_paths:
                raise Budget(f'{npaths} partitions')
            # backtrack
            self.trace = self.trace[:max(self.pos, 0)]
            while self.trace and self.trace[-1][0] + 1 >= self.trace[-1][1]:
                self.trace.pop()
            if not self.trace:
                break
            self.trace[-1][0] += 1
        return outs

    def _conds(self):
        return [(t[2], t[0]) for t in self.trace[:self.pos]]

    # ------------------------------------------------------------ modules
    def module(self, name) -> Mod | None:
        if name in self.mods:
            return self.mods[name]
        info = self.repo.module_of(name)
        if info is None:
            return None
        m = Mod(name, info)
        self.mods[name] = m
        return m

    def classref(self, mod: Mod, node, qual=None) -> ClassRef:
        key = (mod.name, id(node))
        if key not in self.classes:
            c = ClassRef(f'{mod.name}.{qual or node.name}', mod, node)
            self.classes[key] = c
            for b in node.bases:
                d = core.dotted(b) or ''
                last = d.split('.')[-1]
                if last in ('Enum', 'StrEnum', 'IntEnum', 'Flag', 'IntFlag', 'ContainsEnum',
                            'StrEnumPython', 'ContainsMeta', 'BooleanEnum'):
                    c.is_enum = 'int' if last.startswith('Int') else 'str' if last.startswith('Str') else 'plain'
        return self.classes[key]

    def cls(self, name) -> ClassRef:
        """by 'module.Class' or repo class short name"""
        if '.' in name:
            mn, cn = name.rsplit('.', 1)
            m = self.module(mn)
            if m is not None:
                v = self.mod_attr(m, cn)
                if isinstance(v, ClassRef):
                    return v
            raise AnalysisError(f'class {name} not found')
        c = self.repo.cls(name)
        return self.classref(self.module(c.mod.name), c.node, c.qual)

    def mod_attr(self, m: Mod, name):
        if name in m.cache:
            return m.cache[name]
        v = self._mod_attr(m, name)
        if v is not MISSING:
            if isinstance(v, (ADict, AList, ASet)):
                v.shared = (m, name)
            m.cache[name] = v
        return v

    def _mod_attr(self, m: Mod, name):
        info: ModuleInfo = m.info
        if name in ('__name__',):
            return m.name
        b = info.bindings.get(name)
        if b:
            s = b[-1]
            if isinstance(s, tuple):
                st, alias = s
                return self._import(m, st, alias)
            if isinstance(s, ast.ClassDef):
                return self.classref(m, s)
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                return FuncRef(s, m)
            fr = Frame(None, m, None, None)
            if isinstance(s, ast.Assign):
                v = self.ev(s.value, fr)
                for tg in s.targets:
                    self.assign(tg, v, fr)
                return fr.locals.get(name, Unk(f'{m.name}.{name}'))
            if isinstance(s, ast.AnnAssign):
                return self.ev(s.value, fr)
            return Unk(f'{m.name}.{name}')
        # submodule
        sub = self.module(f'{m.name}.{name}') if info.is_pkg else None
        if sub is not None:
            return sub
        for st, alias in info.bindings.get('*', []):
            tgt = self._resolve_from(m, st)
            tm = self.module(tgt)
            if tm is not None:
                v = self.mod_attr(tm, name)
                if v is not MISSING:
                    return v
        return MISSING

    def _resolve_from(self, m: Mod, st: ast.ImportFrom) -> str:
        if st.level == 0:
            return st.module or ''
        base = m.name.split('.')
        if not m.info.is_pkg:
            base = base[:-1]
        if st.level > 1:
            base = base[:-(st.level - 1)]
        return '.'.join(base + ([st.module] if st.module else []))

    def _import(self, m: Mod, st, alias):
        if isinstance(st, ast.Import):
            nm = alias.name if alias.asname else alias.name.split('.')[0]
            mm = self.module(nm)
            return mm if mm is not None else Ext(nm)
        tgt = self._resolve_from(m, st)
        tm = self.module(tgt)
        if tm is not None:
            if tgt == m.name:
                sub = self.module(f'{tgt}.{alias.name}')
                return sub if sub is not None else Ext(f'{tgt}.{alias.name}')
            v = self.mod_attr(tm, alias.name)
            if v is not MISSING:
                return v
            sub = self.module(f'{tgt}.{alias.name}')
            if sub is not None:
                return sub
            return Ext(f'{tgt}.{alias.name}')
        return Ext(f'{tgt}.{alias.name}')

    # ------------------------------------------------------------ classes
    def bases(self, c: ClassRef):
        if c._bases is None:
            out = []
            c._bases = out
            fr = Frame(None, c.mod, None, None)
            self._in_bases += 1
            for b in c.node.bases:
                try:
                    v = self.ev(b, fr)
                except (ARaise, Cut):
                    v = None
                if v is not None:
                    out.append(v)
            self._in_bases -= 1
        return c._bases

    def mro(self, c):
        if isinstance(c, ClassRef) and c._mro is not None:
            return c._mro
        out = self._c3(c, ())
        if out is None:
            out, seen = [], set()

            def rec(x):
                if id(x) in seen:
                    return
                seen.add(id(x))
                out.append(x)
                if isinstance(x, ClassRef):
                    for b in self.bases(x):
                        rec(b)
            rec(c)
        if isinstance(c, ClassRef) and not self._in_bases:
            c._mro = out
        return out

    def _c3(self, c, inside):
        """method resolution order, or None if the bases have none"""
        if not isinstance(c, ClassRef):
            return [c]
        if c in inside:
            return None
        seqs = []
        bs = list(self.bases(c))
        for b in bs:
            r = self._c3(b, inside + (c,))
            if r is None:
                return None
            seqs.append(list(r))
        seqs.append(bs)
        out = [c]
        while any(seqs):
            for q in seqs:
                if q and not any(any(x is q[0] for x in r[1:]) for r in seqs):
                    h = q[0]
                    break
            else:
                return None
            out.append(h)
            seqs = [[x for x in r if x is not h] for r in seqs]
        return out

    def ancestors(self, c):
        names = set()
        for x in self.mro(c):
            if isinstance(x, ClassRef):
                names.add(x.name)
                names.add(x.short)
            elif isinstance(x, Ext):
                names.add(x.name)
                names.add(x.name.split('.')[-1])
            elif isinstance(x, type):
                names.add(x.__name__)
        return names

    def subclass_of(self, c, k):
        """True/False/None(unknown)"""
        if isinstance(k, tuple):
            rs = [self.subclass_of(c, x) for x in k]
            if True in rs:
                return True
            return None if None in rs else False
        if isinstance(k, AList):
            return self.subclass_of(c, tuple(k.v))
        kn = k.name if isinstance(k, (ClassRef, Ext)) else k.__name__ if isinstance(k, type) else None
        if kn is None:
            return None
        if isinstance(c, type):
            if isinstance(k, type):
                return issubclass(c, k)
            return False
        if kn == 'object':
            return True
        anc = self.ancestors(c)
        if isinstance(k, ClassRef):
            return kn in anc or k.short in anc and k.name in anc
        if isinstance(k, type):
            return kn in anc
        if isinstance(k, Ext):
            return k.name in anc or k.name.split('.')[-1] in anc
        return None

    def class_attr(self, c, name, self_=MISSING):
        """Lookup through the MRO: returns value or MISSING (functions are unbound FuncRef)."""
        for k in self.mro(c):
            if not isinstance(k, ClassRef):
                continue
            v = self._own_attr(k, name)
            if v is not MISSING:
                return v
        return MISSING

    def enum_members(self, c: ClassRef):
        if c.members is None:
            c.members = {}
            n = 0
            fr = Frame(None, c.mod, c, None)
            for s in c.node.body:
                tgts, val = [], None
                if isinstance(s, ast.Assign):
                    tgts, val = [x for x in s.targets if isinstance(x, ast.Name)], s.value
                elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.value is not None:
                    tgts, val = [s.target], s.value
                for tg in tgts:
                    if tg.id.startswith('_'):
                        continue
                    if isinstance(val, ast.Call) and (core.dotted(val.func) or '').split('.')[-1] == 'auto':
                        n += 1
                        v = n if c.is_enum != 'str' else tg.id.lower()
                    else:
                        v = self.ev(val, fr)
                        if isinstance(v, EnumMember):
                            v = v.value
                        if isinstance(v, int):
                            n = v
                    alias = next((m for m in c.members.values() if self._lit_same(m.value, v)), None)
                    c.members[tg.id] = alias or EnumMember(c, tg.id, v)
                    fr.locals[tg.id] = v
            init = next((s for s in c.node.body if isinstance(s, ast.FunctionDef) and s.name == '__init__'), None)
            if init is not None:
                for m in list(c.members.values()):
                    args = list(m.value) if isinstance(m.value, tuple) else [m.value]
                    self.call_func(FuncRef(init, c.mod, c, m), args, {}, None)
        return c.members

    @staticmethod
    def _lit_same(a, b):
        try:
            return type(a) is type(b) and a == b
        except Exception:
            return False

    def _own_attr(self, c: ClassRef, name):
        if name in c.cache:
            return c.cache[name]
        v = MISSING
        if c.is_enum:
            mem = self.enum_members(c)
            if name in mem:
                return mem[name]
        if c._names is None:
            names = set()
            for s in self._class_body(c):
                if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                    names.add(s.name)
                elif isinstance(s, ast.Assign):
                    names.update(x.id for x in s.targets if isinstance(x, ast.Name))
                elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                    names.add(s.target.id)
                elif isinstance(s, (ast.Import, ast.ImportFrom)):
                    names.update(a.asname or a.name.split('.')[0] for a in s.names)
            c._names = names
        if name not in c._names:
            return MISSING
        for s in self._class_body(c):
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)) and s.name == name:
                decs = [ast.unparse(d) for d in s.decorator_list]
                if any(d.endswith('.setter') or d.endswith('.deleter') for d in decs):
                    continue
                v = FuncRef(s, c.mod, c)
            elif isinstance(s, ast.ClassDef) and s.name == name:
                v = self.classref(c.mod, s)
            elif isinstance(s, ast.Assign) and _is_property_call(s, name):
                for d in self._class_body(c):
                    if isinstance(d, ast.FunctionDef) and d.name == s.value.args[0].id:
                        d2 = ast.FunctionDef(**{f: getattr(d, f, None) for f in d._fields})
                        ast.copy_location(d2, d)
                        d2.decorator_list = [ast.Name('property', ast.Load())]
                        v = FuncRef(d2, c.mod, c)
            elif isinstance(s, ast.Assign) and any(isinstance(x, ast.Name) and x.id == name for x in s.targets):
                v = self._class_const(c, s.value)
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.target.id == name \
                    and s.value is not None:
                v = self._class_const(c, s.value)
            elif isinstance(s, (ast.Import, ast.ImportFrom)):
                for a in s.names:
                    if (a.asname or a.name.split('.')[0]) == name:
                        v = self._import(c.mod, s, a)
        if v is not MISSING:
            if isinstance(v, (ADict, AList, ASet)):
                v.shared = (c, name)
            c.cache[name] = v
        return v

    def _class_body(self, c):
        if c._body is not None:
            return c._body
        out = []

        def rec(b):
            for s in b:
                if isinstance(s, ast.If):
                    if not core.is_type_checking(s.test):
                        rec(s.body)
                    rec(s.orelse)
                elif isinstance(s, ast.Try):
                    rec(s.body)
                else:
                    out.append(s)
        rec(c.node.body)
        c._body = out
        return out

    def _class_const(self, c, node):
        fr = ClassFrame(self, c)
        return self.ev(node, fr)

    # ------------------------------------------------------------ names
    def lookup(self, name, fr):
        f = fr
        if name not in fr.globals_:
            while f is not None:
                if name in f.locals:
                    return f.locals[name]
                if isinstance(f, ClassFrame):
                    v = self._own_attr_guard(f.cls, name)
                    if v is not MISSING:
                        return v
                f = f.closure
        v = self.mod_attr(fr.mod, name)
        if v is not MISSING:
            return v
        if name in BUILTIN_TYPES:
            return BUILTIN_TYPES[name]
        if name in BUILTIN_EXC:
            return BUILTIN_EXC[name]
        if hasattr(_bi, name):
            return Ext('builtins.' + name)
        self.raise_('NameError', None, fr, name)

    def _own_attr_guard(self, c, name):
        key = ('guard', id(c), name)
        if key in self.cached_const:
            return MISSING
        self.cached_const[key] = True
        try:
            return self._own_attr(c, name)
        finally:
            self.cached_const.pop(key, None)

    def raise_(self, excname, node=None, frame=None, arg=None):
        e = Obj(excname, {'args': (arg,)})
        raise ARaise(e, node, frame)

    # ------------------------------------------------------------ truth
    def deref(self, v):
        while isinstance(v, Unk) and 'eq' in v.facts:
            v = v.facts['eq']
        return v

    def truth(self, v, label=None) -> bool:
        v = self.deref(v)
        if isinstance(v, Unk):
            f = v.facts
            if 'truth' in f:
                return f['truth']
            if f.get('none'):
                return False
            r = self.choose(2, label or v.why) == 0
            f['truth'] = r
            if r:
                f['none'] = False
            return r
        if isinstance(v, CONST) or isinstance(v, tuple):
            return bool(v)
        if isinstance(v, (AList, ASet)):
            if v.v:
                return True
            if v.open:
                return self.choose(2, label or 'open') == 0
            return False
        if isinstance(v, ADict):
            if v.d:
                return True
            if v.open:
                return self.choose(2, label or 'open') == 0
            return False
        if isinstance(v, Native):
            return bool(v.v)
        if isinstance(v, EnumMember):
            return bool(v.value) if v.is_val and not isinstance(v.value, Unk) else True
        if isinstance(v, Obj):
            mm = self.method_models.get((v.cname, '__bool__'))
            if mm:
                return self.truth(mm(self, v, [], {}))
            if isinstance(v.cls, ClassRef):
                for nm in ('__bool__', '__len__'):
                    a = self.class_attr(v.cls, nm)
                    if a is not MISSING:
                        if a.mod.info.ext and a.mod.name not in self.inline_ext:
                            if '__truth__' in v.attrs:
                                return v.attrs['__truth__']
                            r = self.choose(2, f'bool({v.cname})') == 0
                            v.attrs['__truth__'] = r
                            return r
                        return self.truth(self.call(FuncRef(a.node, a.mod, a.cls, v), [], {}, None))
            return True
        return True

    # ------------------------------------------------------------ expressions
    def ev(self, n, fr):
        self.steps += 1
        if self.steps > self.max_steps:
            raise Cut('steps')
        m = getattr(self, 'e_' + type(n).__name__, None)
        if m is None:
            return Unk(type(n).__name__)
        return m(n, fr)

    def e_Constant(self, n, fr):
        return n.value

    def e_Name(self, n, fr):
        return self.lookup(n.id, fr)

    def e_Tuple(self, n, fr):
        return tuple(self._elts(n.elts, fr))

    def e_List(self, n, fr):
        return AList(self._elts(n.elts, fr))

    def e_Set(self, n, fr):
        return self._mkset(self._elts(n.elts, fr))

    def _mkset(self, items):
        s = ASet()
        for x in items:
            if not any(self.same(x, y) for y in s.v):
                s.v.append(x)
        return s

    def same(self, a, b):
        """definite equality on known values"""
        a, b = self.deref(a), self.deref(b)
        if a is b:
            return True
        if isinstance(a, (Unk, Obj)) or isinstance(b, (Unk, Obj)):
            return False
        try:
            return bool(self.eq(a, b))
        except Exception:
            return False

    def _elts(self, elts, fr):
        out = []
        for e in elts:
            if isinstance(e, ast.Starred):
                v = self.iter_items(self.ev(e.value, fr), fr)
                out.extend(v)
            else:
                out.append(self.ev(e, fr))
        return out

    def e_Dict(self, n, fr):
        d = ADict()
        for k, v in zip(n.keys, n.values):
            if k is None:
                o = self.deref(self.ev(v, fr))
                if isinstance(o, ADict):
                    d.d.update(o.d)
                else:
                    d.open = True
                continue
            kk = self.hashable(self.ev(k, fr))
            vv = self.ev(v, fr)
            if kk is MISSING:
                d.open = True
            else:
                d.d[kk] = vv
        return d

    def hashable(self, v):
        v = self.deref(v)
        if isinstance(v, Unk):
            return MISSING
        if isinstance(v, (AList, ADict, ASet)):
            return MISSING
        if isinstance(v, tuple):
            t = tuple(self.hashable(x) for x in v)
            return MISSING if any(x is MISSING for x in t) else t
        return v

    def e_JoinedStr(self, n, fr):
        out = ''
        unk = False
        parts = []
        for p in n.values:
            if isinstance(p, ast.Constant):
                parts.append(p.value)
            else:
                v = self.deref(self.ev(p.value, fr))
                if isinstance(v, CONST) and p.conversion in (-1, 115):
                    spec = ''
                    if p.format_spec is not None:
                        spec = self.ev(p.format_spec, fr)
                        if not isinstance(spec, str):
                            unk = True
                            parts.append(v)
                            continue
                    try:
                        parts.append(format(v, spec))
                    except Exception:
                        unk = True
                else:
                    s = self.tostr(v)
                    if isinstance(s, str):
                        parts.append(s)
                    else:
                        unk = True
                        parts.append(v)
        if unk:
            u = Unk('fstring')
            u.attrs['__parts__'] = parts
            return u
        return ''.join(parts)

    def tostr(self, v):
        v = self.deref(v)
        if isinstance(v, CONST):
            return str(v)
        if isinstance(v, EnumMember) and v.cls.is_enum == 'str':
            return str(v.value)
        if isinstance(v, EnumMember) and v.cls.is_enum == 'int':
            return str(v.value)
        if isinstance(v, Obj) and isinstance(v.cls, ClassRef):
            e = self.class_attr(v.cls, '__str__')
            if e is not MISSING and isinstance(e, FuncRef) and (not e.mod.info.ext or e.mod.name in self.inline_ext):
                return self.call(FuncRef(e.node, e.mod, e.cls, v), [], {}, None)
        return Unk('str()')

    def e_FormattedValue(self, n, fr):
        return self.tostr(self.ev(n.value, fr))

    def e_NamedExpr(self, n, fr):
        v = self.ev(n.value, fr)
        self.assign(n.target, v, fr)
        return v

    def e_BoolOp(self, n, fr):
        isand = isinstance(n.op, ast.And)
        v = None
        for i, x in enumerate(n.values):
            v = self.ev(x, fr)
            if i == len(n.values) - 1:
                return v
            tv = self.truth(v, self._lab(x))
            if isand and not tv:
                return v
            if not isand and tv:
                return v
        return v

    def _lab(self, node):
        lab = getattr(node, '_vplab', None)
        if lab is None:
            try:
                lab = ast.unparse(node)[:80]
            except Exception:
                lab = '?'
            node._vplab = lab
        return lab

    def e_UnaryOp(self, n, fr):
        v = self.ev(n.operand, fr)
        if isinstance(n.op, ast.Not):
            return not self.truth(v, self._lab(n.operand))
        v = self.deref(v)
        if isinstance(v, EnumMember) and v.is_val:
            v = v.value
        if isinstance(v, CONST) and v is not None and not isinstance(v, (str, bytes)):
            return -v if isinstance(n.op, ast.USub) else +v if isinstance(n.op, ast.UAdd) else ~v
        if isinstance(v, Unk):
            return Unk('unary')
        return Unk('unary')

    def e_IfExp(self, n, fr):
        return self.ev(n.body if self.truth(self.ev(n.test, fr), self._lab(n.test)) else n.orelse, fr)

    def e_Lambda(self, n, fr):
        return FuncRef(n, fr.mod, fr.cls, closure=fr)

    def e_Starred(self, n, fr):
        return self.ev(n.value, fr)

    def e_Await(self, n, fr):
        return self.ev(n.value, fr)

    def e_Yield(self, n, fr):
        v = self.ev(n.value, fr) if n.value else None
        f = fr
        while f.yields is None and f.closure is not None:
            f = f.closure
        if f.yields is not None:
            f.yields.append(v)
        return None

    def e_YieldFrom(self, n, fr):
        v = self.ev(n.value, fr)
        if fr.yields is not None:
            fr.yields.extend(self.iter_items(v, fr))
        return None

    def e_BinOp(self, n, fr):
        a = self.ev(n.left, fr)
        b = self.ev(n.right, fr)
        return self.binop(type(n.op), a, b, n, fr)

    def binop(self, op, a, b, n=None, fr=None):
        a, b = self.deref(a), self.deref(b)
        if isinstance(a, EnumMember) and a.is_val:
            a = a.value
        if isinstance(b, EnumMember) and b.is_val:
            b = b.value
        if isinstance(a, (Unk, Obj)) or isinstance(b, (Unk, Obj)):
            if isinstance(a, Obj) and (a.cname, 'binop') in self.method_models:
                return self.method_models[(a.cname, 'binop')](self, a, [op, b], {})
            return Unk('binop')
        if op is ast.Add:
            if isinstance(a, AList) and isinstance(b, AList):
                return AList(a.v + b.v, a.open or b.open)
            if isinstance(a, tuple) and isinstance(b, tuple):
                return a + b
        if op is ast.Mult:
            if isinstance(a, AList) and isinstance(b, int):
                return AList(a.v * b, a.open)
        if isinstance(a, ASet) and isinstance(b, ASet):
            if op is ast.BitOr:
                return self._mkset(a.v + b.v)
            if op is ast.BitAnd:
                return self._mkset([x for x in a.v if any(self.same(x, y) for y in b.v)])
            if op is ast.Sub:
                return self._mkset([x for x in a.v if not any(self.same(x, y) for y in b.v)])
        if op is ast.BitOr and isinstance(a, ADict) and isinstance(b, ADict):
            r = ADict(a.d)
            r.d.update(b.d)
            return r
        if op is ast.Mod and isinstance(a, str):
            if isinstance(b, CONST) or isinstance(b, tuple) and all(isinstance(x, CONST) for x in b):
                try:
                    return a % b
                except Exception:
                    return Unk('mod')
            return Unk('mod')
        if op is ast.BitOr and (isinstance(a, (type, ClassRef, Ext)) or isinstance(b, (type, ClassRef, Ext))):
            return tuple(x for y in (a, b) for x in (y if isinstance(y, tuple) else (y,)))
        okc = (isinstance(a, CONST) or isinstance(a, tuple)) and (isinstance(b, CONST) or isinstance(b, tuple))
        if okc and op in BINOPS:
            try:
                if op is ast.Pow and isinstance(b, (int, float)) and abs(b) > 64:
                    return Unk('pow')
                if op is ast.Mult and isinstance(a, str) and isinstance(b, int) and b > 10000:
                    return Unk('mult')
                return BINOPS[op](a, b)
            except ZeroDivisionError:
                self.raise_('ZeroDivisionError', n, fr)
            except TypeError:
                self.raise_('TypeError', n, fr)
            except Exception:
                return Unk('binop')
        return Unk('binop')

    def e_Compare(self, n, fr):
        left = self.ev(n.left, fr)
        res = True
        for op, rn in zip(n.ops, n.comparators):
            right = self.ev(rn, fr)
            res = self.compare(op, left, right, n, fr)
            if len(n.ops) > 1:
                if not self.truth(res, self._lab(n)):
                    return False
            left = right
        return res

    def compare(self, op, a, b, n, fr):
        if isinstance(op, (ast.Is, ast.IsNot)):
            r = self.is_(a, b, n)
            return r if isinstance(op, ast.Is) else (not r)
        if isinstance(op, (ast.Eq, ast.NotEq)):
            r = self.eq(a, b, n, fr)
            if isinstance(r, Unk):
                r = self.truth(r)
            return r if isinstance(op, ast.Eq) else (not r)
        if isinstance(op, (ast.In, ast.NotIn)):
            r = self.contains(b, a, n, fr)
            return r if isinstance(op, ast.In) else (not r)
        a, b = self.deref(a), self.deref(b)
        if isinstance(a, EnumMember) and a.is_val:
            a = a.value
        if isinstance(b, EnumMember) and b.is_val:
            b = b.value
        if (isinstance(a, CONST) or isinstance(a, tuple)) and (isinstance(b, CONST) or isinstance(b, tuple)):
            try:
                return CMPOPS[type(op)](a, b)
            except TypeError:
                if isinstance(a, tuple) or isinstance(b, tuple):
                    return Unk(self._lab(n))
                self.raise_('TypeError', n, fr)
        if isinstance(a, (int, float, Fraction)) and isinstance(b, (list, AList, ADict)):
            self.raise_('TypeError', n, fr)
        u = Unk(self._lab(n))
        return u

    def is_(self, a, b, n=None):
        a, b = self.deref(a), self.deref(b)
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Unk) and y is None:
                f = x.facts
                if 'none' in f:
                    return f['none']
                if f.get('truth'):
                    return False
                r = self.choose(2, (self._lab(n) if n is not None else 'is None')) == 1
                f['none'] = r
                if r:
                    f['truth'] = False
                return r
        if isinstance(a, Unk) or isinstance(b, Unk):
            if a is b:
                return True
            if isinstance(a, Unk) and isinstance(b, CONST) or isinstance(b, Unk) and isinstance(a, CONST):
                u, c = (a, b) if isinstance(a, Unk) else (b, a)
                return self._eq_fork(u, c, n)
            return self.choose(2, self._lab(n) if n is not None else 'is') == 0
        if isinstance(a, CONST) and isinstance(b, CONST):
            return type(a) is type(b) and a == b
        if isinstance(a, EnumMember) and isinstance(b, EnumMember):
            return a == b
        if isinstance(a, (ClassRef, Ext)) and isinstance(b, (ClassRef, Ext)):
            return a.name == b.name
        return a is b

    def _eq_fork(self, u, c, n=None):
        f = u.facts
        ne = f.setdefault('ne', [])
        if any(type(c) is type(x) and c == x for x in ne):
            return False
        if f.get('none') is True and c is not None:
            return False
        if f.get('none') is False and c is None:
            return False
        if f.get('truth') is True and not c:
            return False
        if f.get('truth') is False and c:
            return False
        if 'dom' in f and c not in f['dom']:
            return False
        r = self.choose(2, (self._lab(n) if n is not None else f'== {c!r}')) == 1
        if r:
            f['eq'] = c
        else:
            ne.append(c)
        return r

    def eq(self, a, b, n=None, fr=None):
        a, b = self.deref(a), self.deref(b)
        if a is b:
            return True
        if isinstance(a, Unk) and (isinstance(b, CONST) or isinstance(b, EnumMember)):
            return self._eq_fork(a, b, n)
        if isinstance(b, Unk) and (isinstance(a, CONST) or isinstance(a, EnumMember)):
            return self._eq_fork(b, a, n)
        if isinstance(a, Unk) or isinstance(b, Unk):
            return self.choose(2, self._lab(n) if n is not None else '==') == 0
        if isinstance(a, EnumMember) or isinstance(b, EnumMember):
            return a == b
        if isinstance(a, CONST) and isinstance(b, CONST):
            return a == b
        if isinstance(a, tuple) and isinstance(b, tuple):
            return len(a) == len(b) and all(self.truth(self.eq(x, y)) for x, y in zip(a, b))
        if isinstance(a, AList) and isinstance(b, AList):
            if a.open or b.open:
                return self.choose(2, '==') == 0
            return len(a.v) == len(b.v) and all(self.truth(self.eq(x, y)) for x, y in zip(a.v, b.v))
        if isinstance(a, ADict) and isinstance(b, ADict):
            return a.d.keys() == b.d.keys() and all(self.truth(self.eq(a.d[k], b.d[k])) for k in a.d)
        if isinstance(a, ASet) and isinstance(b, ASet):
            return len(a.v) == len(b.v) and all(any(self.same(x, y) for y in b.v) for x in a.v)
        if isinstance(a, (ClassRef, Ext)) and isinstance(b, (ClassRef, Ext)):
            return a.name == b.name
        if isinstance(a, Obj) and isinstance(b, Obj):
            mm = self.method_models.get((a.cname, '__eq__'))
            if mm:
                return self.truth(mm(self, a, [b], {}))
            if getattr(self, 'stub_names', None) and 'Stream' in self.ancestors(a.cls) and 'Stream' in self.ancestors(b.cls):
                return a is b       # so it is in music21
            if isinstance(a.cls, ClassRef):
                e = self.class_attr(a.cls, '__eq__')
                if e is not MISSING and isinstance(e, FuncRef) and \
                        (not e.mod.info.ext or e.mod.name in self.inline_ext):
                    return self.truth(self.call(FuncRef(e.node, e.mod, e.cls, a), [b], {}, None))
                if e is MISSING and all(isinstance(x, ClassRef) and not x.mod.info.ext or x is object
                                        for x in self.mro(a.cls)):
                    return False    # identity
            return self.choose(2, self._lab(n) if n is not None else '==') == 0
        if isinstance(a, Obj) or isinstance(b, Obj):
            # object against a constant: only equal if the class says so
            o, c = (a, b) if isinstance(a, Obj) else (b, a)
            if isinstance(o.cls, ClassRef):
                e = self.class_attr(o.cls, '__eq__')
                if e is not MISSING and isinstance(e, FuncRef) and not isinstance(c, (type(None), str)):
                    return self.choose(2, self._lab(n) if n is not None else '==') == 0
            return False
        return False

    def by_identity(self, o):
        return isinstance(o.cls, ClassRef) and (o.cname, '__eq__') not in self.method_models and \
            self.class_attr(o.cls, '__eq__') is MISSING and all(
                isinstance(x, ClassRef) and (not x.mod.info.ext or x.mod.name in self.inline_ext) or x is object
                for x in self.mro(o.cls))

    def contains(self, c, x, n=None, fr=None):
        c, x = self.deref(c), self.deref(x)
        if isinstance(c, str):
            if isinstance(x, str):
                return x in c
            if isinstance(x, Unk):
                return self.choose(2, self._lab(n) if n is not None else 'in') == 0
            self.raise_('TypeError', n, fr)
        if isinstance(c, Native):
            if isinstance(x, Unk):
                return self.choose(2, self._lab(n) if n is not None else 'in') == 0
            try:
                return x in c.v
            except Exception:
                return self.choose(2, 'in') == 0
        if isinstance(c, ADict):
            items, opn = list(c.d.keys()), c.open
        elif isinstance(c, (AList, ASet)):
            items, opn = c.v, c.open
        elif isinstance(c, tuple):
            items, opn = c, False
        elif isinstance(c, ClassRef) and c.is_enum:
            items, opn = list(self.enum_members(c).values()), False
        elif isinstance(c, Obj):
            mm = self.method_models.get((c.cname, '__contains__'))
            if mm:
                return self.truth(mm(self, c, [x], {}))
            if isinstance(c.cls, ClassRef):
                e = self.class_attr(c.cls, '__contains__')
                if e is not MISSING and isinstance(e, FuncRef) and (not e.mod.info.ext or e.mod.name in self.inline_ext):
                    return self.truth(self.call(FuncRef(e.node, e.mod, e.cls, c), [x], {}, None))
            return self.choose(2, self._lab(n) if n is not None else 'in') == 0
        else:
            if isinstance(c, CONST):
                self.raise_('TypeError', n, fr)
            return self.choose(2, self._lab(n) if n is not None else 'in') == 0
        if not isinstance(x, Unk):
            if isinstance(x, Obj):
                if any(x is self.deref(y) for y in items):
                    return True
                if isinstance(c, (ADict, ASet)) and not opn and not any(isinstance(self.deref(y), Unk) for y in items) \
                        and 'Music21Object' in self.ancestors(x.cls):
                    return False        # music21 objects hash by identity
                if isinstance(x.cls, ClassRef) and not opn and not any(isinstance(self.deref(y), Unk) for y in items) \
                        and self.by_identity(x) and all(self.by_identity(self.deref(y)) for y in items
                                                        if isinstance(self.deref(y), Obj)):
                    return False
                if any(isinstance(self.deref(y), (Unk, Obj)) for y in items) or opn:
                    return self.choose(2, self._lab(n) if n is not None else 'in') == 0
                return False
            for y in items:
                if self.same(y, x):
                    return True
            if opn or any(isinstance(self.deref(y), Unk) for y in items):
                return self.choose(2, self._lab(n) if n is not None else 'in') == 0
            return False
        if not items and not opn:
            return False
        if len(items) <= 64 and all(isinstance(y, (CONST, EnumMember)) for y in items) and not opn:
            # partition on which member it is
            f = x.facts
            cands = [y for y in items if not any(type(y) is type(z) and y == z for z in f.get('ne', []))]
            if f.get('truth') is True:
                cands = [y for y in cands if y]
            if f.get('none') is False:
                cands = [y for y in cands if y is not None]
            if 'dom' in f:
                cands = [y for y in cands if y in f['dom']]
            k = self.choose(2, self._lab(n) if n is not None else 'in') if cands else 0
            if k == 1:
                if len(cands) == 1:
                    f['eq'] = cands[0]
                else:
                    f['dom'] = cands
                    if None not in cands:
                        f['none'] = False
                return True
            f.setdefault('ne', []).extend(cands)
            return False
        return self.choose(2, self._lab(n) if n is not None else 'in') == 0

    # ------------------------------------------------------------ attributes
    def e_Attribute(self, n, fr):
        return self.getattr(self.ev(n.value, fr), n.attr, n, fr)

    def getattr(self, o, name, n=None, fr=None, default=MISSING):
        o = self.deref(o)
        if isinstance(o, Mod):
            v = self.mod_attr(o, name)
            if v is MISSING:
                return Ext(f'{o.name}.{name}')
            return v
        if isinstance(o, Ext):
            nm = f'{o.name}.{name}'
            if nm in ('typing.TYPE_CHECKING', 't.TYPE_CHECKING'):
                return False
            if nm == 'sys.stderr' or nm == 'sys.stdout':
                return Ext(nm)
            if nm in EXT_CONSTS:
                return EXT_CONSTS[nm]
            return Ext(nm)
        if isinstance(o, Unk):
            if name not in o.attrs:
                o.attrs[name] = Unk(f'{o.why}.{name}')
            return o.attrs[name]
        if isinstance(o, Obj):
            return self._obj_attr(o, name, n, fr, default)
        if isinstance(o, ClassRef):
            if name == '__name__':
                return o.short
            v = self.class_attr(o, name)
            if v is MISSING:
                if name in ('__doc__', '__module__', '__members__'):
                    if name == '__members__' and o.is_enum:
                        return ADict(self.enum_members(o))
                    return Unk(name)
                if any(not isinstance(b, ClassRef) for b in self.mro(o)) or o.mod.info.ext:
                    return Ext(f'{o.name}.{name}')
                if default is not MISSING:
                    return default
                self.raise_('AttributeError', n, fr, name)
            if isinstance(v, FuncRef):
                decs = _decs(v.node) if hasattr(v.node, 'decorator_list') else []
                if 'classmethod' in decs:
                    return FuncRef(v.node, v.mod, v.cls, o)
            return v
        if isinstance(o, SuperRef):
            mro = self.mro(o.self_.cls if isinstance(o.self_, Obj) and isinstance(o.self_.cls, ClassRef) else o.cls)
            try:
                i = next(i for i, x in enumerate(mro) if isinstance(x, ClassRef) and x.name == o.cls.name)
            except StopIteration:
                i = -1
            for k in mro[i + 1:]:
                if isinstance(k, ClassRef):
                    v = self._own_attr(k, name)
                    if v is not MISSING:
                        if isinstance(v, FuncRef):
                            if k.mod.info.ext and k.mod.name not in self.inline_ext:
                                return Ext(f'super.{k.name}.{name}')
                            if any(d in ('property', 'cached_property', 'functools.cached_property') for d in _decs(v.node)):
                                return self.call(FuncRef(v.node, v.mod, v.cls, o.self_), [], {}, n)
                            return FuncRef(v.node, v.mod, v.cls, o.self_)
                        return v
            return Ext(f'super.object.{name}')
        if isinstance(o, EnumMember):
            if name == 'name':
                return o.name
            if name == 'value':
                return o.value
            if name in o.attrs:
                return o.attrs[name]
            v = self.class_attr(o.cls, name)
            if isinstance(v, FuncRef):
                if 'property' in _decs(v.node):
                    return self.call(FuncRef(v.node, v.mod, v.cls, o), [], {}, n)
                return FuncRef(v.node, v.mod, v.cls, o)
            if v is not MISSING:
                return v
            if isinstance(o.value, str):
                return BoundM(o.value, name)
            return Unk(f'{o!r}.{name}')
        if isinstance(o, type):
            if name == '__name__':
                return o.__name__
            return BoundM(o, name)
        if isinstance(o, FuncRef):
            if name == '__name__':
                return o.name
            return Unk(f'func.{name}')
        if isinstance(o, (AList, ADict, ASet, Native, tuple)) or isinstance(o, CONST):
            if o is None:
                if default is not MISSING:
                    return default
                self.raise_('AttributeError', n, fr, f'None.{name}')
            if isinstance(o, Fraction) and name in ('numerator', 'denominator'):
                return getattr(o, name)
            if isinstance(o, int) and name in ('numerator', 'denominator', 'real', 'imag'):
                return getattr(o, name)
            if isinstance(o, float) and name in ('real', 'imag'):
                return getattr(o, name)
            if isinstance(o, Native) and not callable(getattr(o.v, name, None)) and hasattr(o.v, name):
                return self.wrap(getattr(o.v, name))
            if isinstance(o, CONST) and not hasattr(o, name):
                if default is not MISSING:
                    return default
                self.raise_('AttributeError', n, fr, f'{type(o).__name__}.{name}')
            return BoundM(o, name)
        if isinstance(o, BoundM):
            return Unk(f'bm.{name}')
        return Unk(f'?.{name}')

    CLOSED_PREFIX = ('mei_', 'humdrum_', 'c21_', 'editorial_')

    def _obj_attr(self, o: Obj, name, n, fr, default=MISSING):
        if name in o.attrs:
            return o.attrs[name]
        am = self.attr_models.get((o.cname, name))
        if am is None and isinstance(o.cls, ClassRef):
            for k in self.mro(o.cls):
                if isinstance(k, ClassRef) and (k.short, name) in self.attr_models:
                    am = self.attr_models[(k.short, name)]
                    break
        if am:
            return am(self, o)
        if self._find_mm(o, name):
            return BoundM(o, name)
        if name == '__class__':
            return o.cls if isinstance(o.cls, ClassRef) else Unk('class')
        if name == 'classes' and isinstance(o.cls, ClassRef) and any(isinstance(x, ClassRef) and x.mod.info.ext for x in self.mro(o.cls)):
            return tuple(x.short if isinstance(x, ClassRef) else getattr(x, '__name__', str(x)) for x in self.mro(o.cls))
        if name == '__dict__':
            d = ADict()
            d.d = o.attrs
            return d
        if isinstance(o.cls, ClassRef):
            v = self.class_attr(o.cls, name)
            if v is not MISSING:
                if isinstance(v, FuncRef):
                    decs = _decs(v.node)
                    inl = not v.mod.info.ext or v.mod.name in self.inline_ext
                    if any(d in ('property', 'cached_property', 'functools.cached_property') for d in decs):
                        if not inl:
                            u = Unk(f'{o.cname}.{name}')
                            o.attrs[name] = u
                            return u
                        return self.call(FuncRef(v.node, v.mod, v.cls, o), [], {}, n)
                    if not inl:
                        return BoundM(o, name)
                    if 'staticmethod' in decs:
                        return v
                    if 'classmethod' in decs:
                        return FuncRef(v.node, v.mod, v.cls, o.cls)
                    return FuncRef(v.node, v.mod, v.cls, o)
                return v
            if o.cls.mod.info.ext or any(not isinstance(b, ClassRef) or b.mod.info.ext for b in self.mro(o.cls)):
                if name.startswith(self.CLOSED_PREFIX):
                    if default is not MISSING:
                        return default
                    self.raise_('AttributeError', n, fr, name)
        if (not o.open or name in o.absent) and not (name in self.stub_names and name not in o.absent and self._ext_obj(o, name)):
            if default is not MISSING:
                return default
            self.raise_('AttributeError', n, fr, name)
        if default is not MISSING and name.startswith(self.CLOSED_PREFIX):
            return default
        u = Unk(f'{o.cname}.{name}')
        o.attrs[name] = u
        return u

    def _ext_obj(self, o, name=None):
        """is the object of a modelled external class (which has this name)?"""
        if not isinstance(o.cls, ClassRef):
            return False
        for b in self.mro(o.cls):
            if isinstance(b, ClassRef) and b.mod.info.ext:
                have = self.stub_classes.get(b.short)
                if have is None and self.stub_classes and b.mod.name in self.inline_ext:
                    continue            # interpreted from its own source: what it has is known
                if have is None or '*' in have or name is None or name in have:
                    return True
        return False

    def _find_mm(self, o, name):
        mm = self.method_models.get((o.cname, name))
        if mm:
            return mm
        if isinstance(o.cls, ClassRef):
            for k in self.mro(o.cls)[1:]:
                if isinstance(k, ClassRef) and (k.short, name) in self.method_models:
                    return self.method_models[(k.short, name)]
        return None

    def hasattr(self, o, name):
        o = self.deref(o)
        if isinstance(o, Obj):
            if name in o.attrs:
                return True
            if (o.cname, name) in self.attr_models or self._find_mm(o, name):
                return True
            if isinstance(o.cls, ClassRef) and self.class_attr(o.cls, name) is not MISSING:
                return True
            if name.startswith(self.CLOSED_PREFIX) or name in o.absent or \
                    not o.open and not (name in self.stub_names and self._ext_obj(o, name)):
                return False
            return self.choose(2, f'hasattr {name}') == 1
        if isinstance(o, Unk):
            k = 'has:' + name
            if k not in o.facts:
                o.facts[k] = self.choose(2, f'hasattr {name}') == 1
            return o.facts[k]
        if isinstance(o, CONST):
            return hasattr(o, name)
        if isinstance(o, (AList,)):
            return hasattr([], name)
        if isinstance(o, ADict):
            return hasattr({}, name)
        if isinstance(o, ClassRef):
            return self.class_attr(o, name) is not MISSING
        if isinstance(o, (Ext, Mod)):
            v = self.getattr(o, name)
            if not isinstance(v, (Ext, Unk)):
                return True
            mi = self.repo.module_of(o.name)
            if mi is not None and any(isinstance(t, ast.Name) and t.id == name for st in mi.tree.body
                                      if isinstance(st, (ast.Assign, ast.AnnAssign))
                                      for t in (st.targets if isinstance(st, ast.Assign) else [st.target])):
                return True
        return self.choose(2, f'hasattr {name}') == 1

    def setattr(self, o, name, v, fr=None, n=None):
        o = self.deref(o)
        if isinstance(o, Obj):
            sm = self.method_models.get((o.cname, 'set:' + name))
            if sm:
                sm(self, o, [v], {})
                return
            if isinstance(o.cls, ClassRef):
                st = self._setter(o.cls, name)
                if st is not None and (not st.mod.info.ext or st.mod.name in self.inline_ext):
                    self.call(FuncRef(st.node, st.mod, st.cls, o), [v], {}, n)
                    return
            o.attrs[name] = v
            self.events.append(('setattr', o, name, v))
        elif isinstance(o, (Unk, EnumMember)):
            o.attrs[name] = v
        elif isinstance(o, ClassRef):
            o.cache[name] = v
            self.dirty.append((o, name))
        elif isinstance(o, Mod):
            o.cache[name] = v
            self.dirty.append((o, name))

    def _setter(self, c, name):
        key = (id(c), name)
        if key not in self._setters:
            self._setters[key] = (self._find_setter(c, name), c)
        return self._setters[key][0]

    def _find_setter(self, c, name):
        for k in self.mro(c):
            if isinstance(k, ClassRef):
                for s in self._class_body(k):
                    if isinstance(s, ast.FunctionDef) and s.name == name and any(
                            ast.unparse(d) == f'{name}.setter' for d in s.decorator_list):
                        return FuncRef(s, k.mod, k)
                    if isinstance(s, ast.Assign) and _is_property_call(s, name):
                        args = s.value.args
                        kw = [x.value for x in s.value.keywords if x.arg == 'fset']
                        fset = args[1] if len(args) > 1 else kw[0] if kw else None
                        for d in self._class_body(k):
                            if isinstance(d, ast.FunctionDef) and isinstance(fset, ast.Name) and d.name == fset.id:
                                return FuncRef(d, k.mod, k)
                if self._own_attr(k, name) is not MISSING:
                    return None
        return None

    # ------------------------------------------------------------ subscripts
    def e_Subscript(self, n, fr):
        o = self.ev(n.value, fr)
        if isinstance(n.slice, ast.Slice):
            lo = self.deref(self.ev(n.slice.lower, fr)) if n.slice.lower else None
            hi = self.deref(self.ev(n.slice.upper, fr)) if n.slice.upper else None
            st = self.deref(self.ev(n.slice.step, fr)) if n.slice.step else None
            o = self.deref(o)
            if all(isinstance(x, (int, type(None))) for x in (lo, hi, st)):
                if isinstance(o, (str, tuple, bytes)):
                    return o[lo:hi:st]
                if isinstance(o, AList):
                    return AList(o.v[lo:hi:st], o.open)
            return Unk('slice')
        k = self.ev(n.slice, fr)
        return self.getitem(o, k, n, fr)

    def getitem(self, o, k, n=None, fr=None):
        o, k = self.deref(o), self.deref(k)
        if isinstance(o, ADict):
            kk = self.hashable(k)
            if kk is MISSING:
                if isinstance(k, Unk) and 'dom' in k.facts and o.d:
                    c = [x for x in k.facts['dom']]
                    i = self.choose(len(c), 'dom') if len(c) > 1 else 0
                    k.facts['eq'] = c[i]
                    return self.getitem(o, k, n, fr)
                return Unk('getitem', None)
            if kk in o.d:
                return o.d[kk]
            if o.default is not None:
                v = self.call(o.default, [], {}, n)
                self.mutate(o)
                o.d[kk] = v
                return v
            if o.open:
                v = Unk(f'[{kk!r}]')
                o.d[kk] = v
                return v
            self.raise_('KeyError', n, fr, kk)
        if isinstance(o, (AList, tuple, str, bytes)):
            seq = o.v if isinstance(o, AList) else o
            if isinstance(k, EnumMember) and k.is_val:
                k = k.value
            if isinstance(k, bool):
                k = int(k)
            if isinstance(k, int):
                if isinstance(o, AList) and o.open:
                    return Unk('item')
                if -len(seq) <= k < len(seq):
                    return seq[k]
                self.raise_('IndexError', n, fr, k)
            return Unk('item')
        if isinstance(o, Native):
            if isinstance(o.v, re.Match):
                if isinstance(k, (int, str)):
                    try:
                        return o.v[k]
                    except IndexError:
                        self.raise_('IndexError', n, fr)
            if isinstance(o.v, range) and isinstance(k, int):
                try:
                    return o.v[k]
                except IndexError:
                    self.raise_('IndexError', n, fr)
            return Unk('item')
        if isinstance(o, ClassRef):
            if o.is_enum and isinstance(k, str):
                mem = self.enum_members(o)
                if k in mem:
                    return mem[k]
                self.raise_('KeyError', n, fr, k)
            return o
        if isinstance(o, (Ext, type)):
            return o
        if isinstance(o, Obj):
            mm = self._find_mm(o, '__getitem__')
            if mm:
                return mm(self, o, [k], {})
            if isinstance(o.cls, ClassRef):
                e = self.class_attr(o.cls, '__getitem__')
                if e is not MISSING and isinstance(e, FuncRef) and (not e.mod.info.ext or e.mod.name in self.inline_ext):
                    return self.call(FuncRef(e.node, e.mod, e.cls, o), [k], {}, n)
            return Unk('item')
        if o is None or isinstance(o, (int, float, Fraction)):
            self.raise_('TypeError', n, fr)
        if isinstance(o, Unk):
            kk = self.hashable(k)
            if kk is not MISSING:
                key = ('item', kk)
                if key not in o.attrs:
                    o.attrs[key] = Unk(f'{o.why}[{kk!r}]')
                return o.attrs[key]
        return Unk('item')

    def mutate(self, o):
        if getattr(o, 'shared', None) is not None:
            self.dirty.append(o.shared)

    def setitem(self, o, k, v, n=None, fr=None):
        o, k = self.deref(o), self.deref(k)
        if isinstance(o, ADict):
            self.mutate(o)
            kk = self.hashable(k)
            if kk is MISSING:
                o.open = True
            else:
                o.d[kk] = v
        elif isinstance(o, AList):
            self.mutate(o)
            if isinstance(k, int) and -len(o.v) <= k < len(o.v):
                o.v[k] = v
            elif isinstance(k, int) and not o.open:
                self.raise_('IndexError', n, fr)
        elif isinstance(o, Obj):
            mm = self._find_mm(o, '__setitem__')
            if mm:
                mm(self, o, [k, v], {})
            elif isinstance(o.cls, ClassRef):
                e = self.class_attr(o.cls, '__setitem__')
                if e is not MISSING and isinstance(e, FuncRef) and not e.mod.info.ext:
                    self.call(FuncRef(e.node, e.mod, e.cls, o), [k, v], {}, n)
        elif isinstance(o, Unk):
            kk = self.hashable(k)
            if kk is not MISSING:
                o.attrs[('item', kk)] = v
        elif o is None or isinstance(o, (str, tuple, int)):
            self.raise_('TypeError', n, fr)

    # ------------------------------------------------------------ comprehensions
    def e_ListComp(self, n, fr):
        out = AList()
        self._comp(n.generators, 0, self._sub(fr), lambda f: out.v.append(self.ev(n.elt, f)), out)
        return out

    def e_GeneratorExp(self, n, fr):
        return self.e_ListComp(n, fr)

    def e_SetComp(self, n, fr):
        return self._mkset(self.e_ListComp(n, fr).v)

    def e_DictComp(self, n, fr):
        out = ADict()

        def add(f):
            k = self.hashable(self.ev(n.key, f))
            v = self.ev(n.value, f)
            if k is MISSING:
                out.open = True
            else:
                out.d[k] = v
        self._comp(n.generators, 0, self._sub(fr), add, out)
        return out

    def _sub(self, fr):
        f = Frame(fr.func, fr.mod, fr.cls, fr)
        return f

    def _comp(self, gens, i, fr, emit, out):
        if i == len(gens):
            emit(fr)
            return
        g = gens[i]
        it = self.ev(g.iter, fr if i else fr.closure or fr)
        for x in self.iter_items(it, fr, out):
            self.assign(g.target, x, fr)
            if all(self.truth(self.ev(c, fr), self._lab(c)) for c in g.ifs):
                self._comp(gens, i + 1, fr, emit, out)

    def iter_items(self, it, fr=None, out=None):
        it = self.deref(it)
        if isinstance(it, AList):
            if it.open and not it.v:
                if out is not None:
                    out.open = True
                return [Unk('elem')] if self.choose(2, 'open-iter') == 1 else []
            return list(it.v)
        if isinstance(it, (ASet,)):
            return list(it.v)
        if isinstance(it, tuple):
            return list(it)
        if isinstance(it, str):
            return list(it)
        if isinstance(it, ADict):
            return list(it.d.keys())
        if isinstance(it, Native):
            try:
                return [self.wrap(x) for x in it.v]
            except TypeError:
                return []
        if isinstance(it, ClassRef) and it.is_enum:
            return list(self.enum_members(it).values())
        if isinstance(it, Obj):
            mm = self._find_mm(it, '__iter__')
            if mm:
                return self.iter_items(mm(self, it, [], {}), fr)
            if isinstance(it.cls, ClassRef):
                e = self.class_attr(it.cls, '__iter__')
                if e is not MISSING and isinstance(e, FuncRef) and (not e.mod.info.ext or e.mod.name in self.inline_ext):
                    return self.iter_items(self.call(FuncRef(e.node, e.mod, e.cls, it), [], {}, None), fr)
        if it is None or isinstance(it, (int, float, Fraction)):
            self.raise_('TypeError', None, fr, 'not iterable')
        # unknown iterable: zero or one abstract element
        if out is not None and hasattr(out, 'open'):
            out.open = True
        if isinstance(it, Unk):
            if 'iter' in it.facts:
                return list(it.facts['iter'])
            r = [Unk(f'{it.why}[]')] if self.choose(2, f'iter {it.why}') == 1 else []
            it.facts['iter'] = r
            return list(r)
        return [Unk('elem')] if self.choose(2, 'iter') == 1 else []

    def wrap(self, v):
        if isinstance(v, CONST):
            return v
        if isinstance(v, tuple):
            return tuple(self.wrap(x) for x in v)
        if isinstance(v, list):
            return AList([self.wrap(x) for x in v])
        if isinstance(v, dict):
            return ADict({k: self.wrap(x) for k, x in v.items()})
        if isinstance(v, (set, frozenset)):
            return ASet([self.wrap(x) for x in v])
        return Native(v)

    # ------------------------------------------------------------ calls
    def e_Call(self, n, fr):
        # super()
        if isinstance(n.func, ast.Name) and n.func.id == 'super' and not n.args:
            f = fr
            while f is not None and 'self' not in f.locals and f.func is None:
                f = f.closure
            s = None
            if f is not None:
                params = f.func.node.args.args if f.func is not None else []
                if params:
                    s = f.locals.get(params[0].arg)
            return SuperRef(fr.cls, s)
        fn = self.ev(n.func, fr)
        args = []
        for a in n.args:
            if isinstance(a, ast.Starred):
                sv = self.deref(self.ev(a.value, fr))
                if isinstance(sv, Unk):
                    return Unk('star-call')
                args.extend(self.iter_items(sv, fr))
            else:
                args.append(self.ev(a, fr))
        kw = {}
        for k in n.keywords:
            if k.arg is None:
                d = self.deref(self.ev(k.value, fr))
                if isinstance(d, ADict):
                    kw.update({kk: v for kk, v in d.d.items() if isinstance(kk, str)})
            else:
                kw[k.arg] = self.ev(k.value, fr)
        return self.call(fn, args, kw, n, fr)

    def call(self, fn, args, kw, n=None, fr=None):
        fn = self.deref(fn)
        if isinstance(fn, FuncRef):
            mod = fn.mod
            if fn.qual in self.models:
                a = args if fn.self_ is MISSING else [fn.self_] + args
                return self.models[fn.qual](self, a, kw)
            if mod.info.ext and mod.name not in self.inline_ext:
                return self.ext_call(fn.qual, args, kw, n, fr)
            return self.call_func(fn, args, kw, n)
        if isinstance(fn, ClassRef):
            return self.instantiate(fn, args, kw, n, fr)
        if isinstance(fn, BoundM):
            return self.call_bound(fn.obj, fn.name, args, kw, n, fr)
        if isinstance(fn, Ext):
            return self.ext_call(fn.name, args, kw, n, fr)
        if isinstance(fn, type):
            return self.call_type(fn, args, kw, n, fr)
        if isinstance(fn, Obj):
            mm = self._find_mm(fn, '__call__')
            if mm:
                return mm(self, fn, args, kw)
            return Unk('call')
        if isinstance(fn, Unk):
            self.events.append(('ucall', fn, args, kw))
            if self.hook_unknown_call:
                return self.hook_unknown_call(self, fn, args, kw)
            return Unk(f'{fn.why}()')
        if fn is None or isinstance(fn, CONST):
            self.raise_('TypeError', n, fr, 'not callable')
        return Unk('call')

    def call_func(self, fn: FuncRef, args, kw, n=None):
        node = fn.node
        if self.depth >= self.max_depth:
            raise Cut('depth')
        fr = Frame(fn, fn.mod, fn.cls, fn.closure)
        decs = _decs(node) if hasattr(node, 'decorator_list') else []
        a = list(args)
        if fn.self_ is not MISSING and 'staticmethod' not in decs:
            a = [fn.self_] + a
        self.bind(node.args, a, dict(kw), fr, fn, n)
        if isinstance(node, ast.Lambda):
            return self.ev(node.body, fr)
        self.visited.add(f'{fn.mod.info.rel}:{fn.qual}')
        self.depth += 1
        self.stack.append(fn.qual)
        gen = _has_yield(node)
        if gen:
            fr.yields = []
        try:
            self.block(node.body, fr)
            ret = None
        except _Return as r:
            ret = r.v
        finally:
            self.depth -= 1
            self.stack.pop()
        if gen:
            return AList(fr.yields)
        return ret

    def bind(self, A, args, kw, fr, fn, n):
        params = A.posonlyargs + A.args
        names = [p.arg for p in params]
        L = fr.locals
        extra = args[len(names):]
        for nm, v in zip(names, args):
            L[nm] = v
        for k in list(kw):
            if k in names or any(k == p.arg for p in A.kwonlyargs):
                if k in L:
                    self.raise_('TypeError', n, fr, f'multiple values {k}')
                L[k] = kw.pop(k)
        ndef = len(A.defaults)
        dfr = Frame(None, fn.mod, fn.cls, ClassFrame(self, fn.cls) if fn.cls is not None else fn.closure)
        for i, p in enumerate(params):
            if p.arg not in L:
                di = i - (len(params) - ndef)
                if di >= 0:
                    L[p.arg] = self.ev(A.defaults[di], dfr)
                else:
                    self.raise_('TypeError', n, fr, f'missing {p.arg} in call of {fn.qual}')
        for p, d in zip(A.kwonlyargs, A.kw_defaults):
            if p.arg not in L:
                if d is None:
                    self.raise_('TypeError', n, fr, f'missing {p.arg}')
                L[p.arg] = self.ev(d, dfr)
        if A.vararg:
            L[A.vararg.arg] = tuple(extra)
        elif extra:
            self.raise_('TypeError', n, fr, f'too many arguments in call of {fn.qual}')
        if A.kwarg:
            L[A.kwarg.arg] = ADict(kw)
        elif kw:
            self.raise_('TypeError', n, fr, f'unexpected {list(kw)} in call of {fn.qual}')

    def instantiate(self, c: ClassRef, args, kw, n=None, fr=None):
        if c.name in self.ctor_models:
            return self.ctor_models[c.name](self, c, args, kw)
        if c.short in self.ctor_models:
            return self.ctor_models[c.short](self, c, args, kw)
        if c.is_enum:
            if args:
                v = self.deref(args[0])
                for m in self.enum_members(c).values():
                    if isinstance(v, EnumMember) and v == m or self.same(m.value, v):
                        return m
                if isinstance(v, Unk):
                    return Unk(f'{c.short}()')
                self.raise_('ValueError', n, fr)
            return Unk(c.short)
        init = self.class_attr(c, '__init__')
        inl = isinstance(init, FuncRef) and (not init.mod.info.ext or init.mod.name in self.inline_ext)
        o = Obj(c)
        if c.mod.info.ext and c.mod.name not in self.inline_ext:
            inl = False
        if inl:
            self.call_func(FuncRef(init.node, init.mod, init.cls, o), args, kw, n)
            if all(isinstance(b, ClassRef) and (not b.mod.info.ext or b.mod.name in self.inline_ext) or b is object
                   for b in self.mro(c)):
                o.open = False
        else:
            o.attrs.update(kw)
            o.attrs['__args__'] = tuple(args)
            if isinstance(init, FuncRef) and init is not MISSING:
                # positional arguments take the names of the constructor's parameters
                ps = [p.arg for p in init.node.args.posonlyargs + init.node.args.args][1:]
                o.attrs['__named__'] = dict(zip(ps, args))
        self.events.append(('new', o))
        return o

    def call_type(self, ty, args, kw, n, fr):
        a = [self.deref(x) for x in args]
        if ty is str:
            if not a:
                return ''
            return self.tostr(a[0])
        if ty in (int, float):
            if not a:
                return ty()
            if isinstance(a[0], EnumMember) and a[0].is_val:
                a[0] = a[0].value
            if all(isinstance(x, CONST) for x in a):
                try:
                    return ty(*a)
                except ValueError:
                    self.raise_('ValueError', n, fr)
                except (TypeError, OverflowError):
                    self.raise_('TypeError', n, fr)
            if a and isinstance(a[0], (AList, ADict, ASet)):
                self.raise_('TypeError', n, fr)
            return Unk(ty.__name__)
        if ty is bool:
            return self.truth(a[0]) if a else False
        if ty is list:
            return AList(self.iter_items(a[0], fr)) if a else AList()
        if ty is tuple:
            return tuple(self.iter_items(a[0], fr)) if a else ()
        if ty in (set, frozenset):
            return self._mkset(self.iter_items(a[0], fr)) if a else ASet()
        if ty is dict:
            d = ADict()
            if a:
                if isinstance(a[0], ADict):
                    d.d.update(a[0].d)
                    d.open = a[0].open
                elif isinstance(a[0], Unk):
                    d.open = True
                else:
                    for it in self.iter_items(a[0], fr):
                        kv = self.iter_items(it, fr)
                        if len(kv) == 2:
                            k = self.hashable(kv[0])
                            if k is MISSING:
                                d.open = True
                            else:
                                d.d[k] = kv[1]
            d.d.update(kw)
            return d
        if ty is type and len(a) == 1:
            v = a[0]
            if isinstance(v, Obj) and isinstance(v.cls, ClassRef):
                return v.cls
            if isinstance(v, CONST):
                return type(v)
            return Unk('type')
        if isinstance(ty, type) and issubclass(ty, BaseException):
            return Obj(ty.__name__, {'args': tuple(args)})
        if ty is bytes:
            return Unk('bytes')
        return Unk(ty.__name__)

    def isinstance(self, v, k, n=None):
        v = self.deref(v)
        k = self.deref(k)
        if isinstance(k, (tuple, AList)):
            ks = k if isinstance(k, tuple) else k.v
            rs = []
            if isinstance(v, Unk) and v.cls is None:
                key = ('isinst', tuple(getattr(x, 'name', str(x)) for x in ks))
                return self._memo_fork(v, key, n)
            for x in ks:
                if self.isinstance(v, x, n):
                    return True
            return False
        if isinstance(v, Unk):
            if v.cls is not None:
                r = self.subclass_of(v.cls, k)
                if r is not None:
                    return r
            return self._memo_fork(v, ('isinst', getattr(k, 'name', str(k))), n)
        if isinstance(v, Obj):
            if isinstance(v.cls, ClassRef):
                r = self.subclass_of(v.cls, k)
                if r is None:
                    return self.choose(2, self._lab(n) if n is not None else 'isinstance') == 1
                return r
            kn = k.name.split('.')[-1] if isinstance(k, (ClassRef, Ext)) else getattr(k, '__name__', '')
            if isinstance(k, type) and issubclass(k, BaseException) and v.cname in BUILTIN_EXC:
                return issubclass(BUILTIN_EXC[v.cname], k)
            return kn == v.cname or kn == 'object'
        if isinstance(v, EnumMember):
            if k is int:
                return v.cls.is_enum == 'int'
            if k is str:
                return v.cls.is_enum == 'str'
            return bool(self.subclass_of(v.cls, k))
        if isinstance(k, type):
            m = {AList: list, ADict: dict, ASet: set, tuple: tuple}
            for a, b in m.items():
                if isinstance(v, a):
                    return issubclass(b, k)
            if isinstance(v, CONST):
                return isinstance(v, k)
            if isinstance(v, (ClassRef,)):
                return k in (type, object)
            return False
        if isinstance(k, Ext):
            last = k.name.split('.')[-1]
            if isinstance(v, Fraction) and last == 'Fraction':
                return True
            if isinstance(v, CONST) and last in ('Number', 'Real') and isinstance(v, (int, float, Fraction)):
                return True
            if isinstance(v, Native):
                return type(v.v).__name__ == last
            return False
        return False

    def _memo_fork(self, v, key, n):
        if v.facts.get('none') is True and not (isinstance(key, tuple) and 'NoneType' in str(key)):
            return False
        if key not in v.facts:
            r = self.choose(2, self._lab(n) if n is not None else 'isinstance') == 1
            v.facts[key] = r
            if r:
                v.facts.setdefault('none', False)
        return v.facts[key]

    # ---- external functions
    def ext_call(self, name, args, kw, n, fr):
        m = self.models.get(name)
        if m is None and name.startswith('builtins.'):
            m = getattr(self, 'b_' + name[9:], None)
            if m is not None:
                return m(args, kw, n, fr)
        if m is None and name.startswith('super.'):
            return None
        if m is not None:
            return m(self, args, kw)
        if name.startswith('re.'):
            return self.call_re(name[3:], args, kw, n, fr)
        if name.startswith('math.'):
            a = [self.deref(x) for x in args]
            if all(isinstance(x, (int, float, Fraction)) for x in a) and hasattr(math, name[5:]):
                try:
                    return getattr(math, name[5:])(*a)
                except Exception:
                    return Unk(name)
            return Unk(name)
        if name in ('fractions.Fraction',):
            a = [self.deref(x) for x in args]
            if all(isinstance(x, (int, float, Fraction, str)) for x in a):
                try:
                    return Fraction(*a)
                except ZeroDivisionError:
                    self.raise_('ZeroDivisionError', n, fr)
                except ValueError:
                    self.raise_('ValueError', n, fr)
                except TypeError:
                    self.raise_('TypeError', n, fr)
            return Unk('Fraction')
        if name in ('html.escape', 'html.unescape'):
            a = self.deref(args[0])
            return getattr(_html, name[5:])(a) if isinstance(a, str) else Unk(name)
        if name in ('copy.copy', 'copy.deepcopy'):
            return self.deepcopy(args[0], name.endswith('deepcopy'))
        if name in ('typing.cast', 't.cast'):
            return args[1]
        if name.endswith('.opFrac') or name == 'opFrac':
            v = self.deref(args[0])
            if isinstance(v, (int, float, Fraction)) or v is None:
                return opfrac(v)
            return Unk('opFrac')
        if name in ('collections.defaultdict',):
            d = ADict()
            d.default = self.deref(args[0]) if args else None
            return d
        if name in ('collections.OrderedDict',):
            return self.call_type(dict, args, kw, n, fr)
        if name == 'enum.auto':
            return Unk('auto')
        if name == 'sys.exit':
            raise ARaise(Obj('SystemExit', {'args': tuple(args), 'code': args[0] if args else None}), n, fr)
        self.events.append(('ext', name, args, kw))
        if name.split('.')[-1] and name.split('.')[-1][0].isupper() and not name.startswith('builtins'):
            # looks like a class: keep an abstract instance
            o = Obj(name.split('.')[-1], dict(kw))
            o.attrs['__args__'] = tuple(args)
            o.ext = name
            return o
        return Unk(f'{name}()')

    def deepcopy(self, v, deep, memo=None):
        memo = {} if memo is None else memo
        v = self.deref(v)
        if id(v) in memo:
            return memo[id(v)]
        if isinstance(v, Obj):
            o = Obj(v.cls, open=v.open)
            o.absent = v.absent
            memo[id(v)] = o
            o.attrs = {k: (self.deepcopy(x, True, memo) if deep else x) for k, x in v.attrs.items()}
            return o
        if isinstance(v, AList):
            r = AList(open=v.open)
            memo[id(v)] = r
            r.v = [self.deepcopy(x, True, memo) if deep else x for x in v.v]
            return r
        if isinstance(v, ADict):
            r = ADict(open=v.open)
            memo[id(v)] = r
            r.d = {k: (self.deepcopy(x, True, memo) if deep else x) for k, x in v.d.items()}
            return r
        if isinstance(v, ASet):
            return ASet(v.v, v.open)
        if isinstance(v, tuple) and deep:
            return tuple(self.deepcopy(x, True, memo) for x in v)
        return v

    def call_re(self, name, args, kw, n, fr):
        a = [self.deref(x) for x in args]
        if name == 'compile' and a and isinstance(a[0], str):
            try:
                return Native(re.compile(*[x for x in a if isinstance(x, (str, int))]))
            except re.error:
                return Unk('re')
        if name == 'escape' and isinstance(a[0], str):
            return re.escape(a[0])
        if name in ('search', 'match', 'fullmatch', 'findall', 'split', 'sub', 'finditer'):
            pat = a[0].v if a and isinstance(a[0], Native) else a[0] if a else None
            if isinstance(pat, (str, re.Pattern)) and all(isinstance(x, (str, int)) for x in a[1:]):
                kk = {k: self.deref(v) for k, v in kw.items()}
                if all(isinstance(v, (int, str)) for v in kk.values()):
                    try:
                        r = getattr(re, name)(pat, *a[1:], **kk)
                    except (re.error, TypeError):
                        return Unk('re')
                    if name == 'finditer':
                        return AList([Native(x) for x in r])
                    return None if r is None else self.wrap(r)
            if name == 'sub' and isinstance(pat, (str, re.Pattern)) and len(a) >= 3 and isinstance(a[2], str) \
                    and isinstance(a[1], FuncRef):
                def rep(m):
                    v = self.call(a[1], [Native(m)], {}, n)
                    v = self.deref(v)
                    if not isinstance(v, str):
                        raise Cut('re.sub')
                    return v
                return re.sub(pat, rep, a[2])
            return Unk(f're.{name}')
        if hasattr(re, name) and isinstance(getattr(re, name), int):
            return int(getattr(re, name))
        return Unk(f're.{name}')

    # ---- builtins
    def b_len(self, args, kw, n, fr):
        v = self.deref(args[0])
        if isinstance(v, (AList, ASet)):
            return Unk('len') if v.open else len(v.v)
        if isinstance(v, ADict):
            return Unk('len') if v.open else len(v.d)
        if isinstance(v, (str, tuple, bytes)):
            return len(v)
        if isinstance(v, Native):
            try:
                return len(v.v)
            except TypeError:
                return Unk('len')
        if isinstance(v, ClassRef) and v.is_enum:
            return len(self.enum_members(v))
        if isinstance(v, Obj):
            mm = self._find_mm(v, '__len__')
            if mm:
                return mm(self, v, [], {})
            if isinstance(v.cls, ClassRef):
                e = self.class_attr(v.cls, '__len__')
                if e is not MISSING and isinstance(e, FuncRef) and (not e.mod.info.ext or e.mod.name in self.inline_ext):
                    return self.call(FuncRef(e.node, e.mod, e.cls, v), [], {}, n)
        if v is None:
            self.raise_('TypeError', n, fr)
        if isinstance(v, Unk):
            if 'len' not in v.attrs:
                v.attrs['len'] = Unk('len')
            return v.attrs['len']
        return Unk('len')

    def b_isinstance(self, args, kw, n, fr):
        return self.isinstance(args[0], args[1], n)

    def b_issubclass(self, args, kw, n, fr):
        c = self.deref(args[0])
        r = self.subclass_of(c, self.deref(args[1])) if isinstance(c, (ClassRef, type)) else None
        return Unk('issubclass') if r is None else r

    def b_hasattr(self, args, kw, n, fr):
        nm = self.deref(args[1])
        return self.hasattr(args[0], nm) if isinstance(nm, str) else Unk('hasattr')

    def b_getattr(self, args, kw, n, fr):
        nm = self.deref(args[1])
        if not isinstance(nm, str):
            return Unk('getattr')
        o = self.deref(args[0])
        if len(args) > 2:
            if isinstance(o, Obj) and not self.hasattr(o, nm):
                return args[2]
            if isinstance(o, Unk) and not self.hasattr(o, nm):
                return args[2]
            return self.getattr(o, nm, n, fr, default=args[2])
        return self.getattr(o, nm, n, fr)

    def b_setattr(self, args, kw, n, fr):
        nm = self.deref(args[1])
        if isinstance(nm, str):
            self.setattr(args[0], nm, args[2], fr, n)
        return None

    def b_delattr(self, args, kw, n, fr):
        nm = self.deref(args[1])
        o = self.deref(args[0])
        if isinstance(o, (Obj, Unk)) and isinstance(nm, str):
            o.attrs.pop(nm, None)
        return None

    def b_callable(self, args, kw, n, fr):
        v = self.deref(args[0])
        if isinstance(v, (FuncRef, ClassRef, BoundM, Ext, type)):
            return True
        if isinstance(v, CONST):
            return False
        return Unk('callable')

    def b_range(self, args, kw, n, fr):
        a = [self.deref(x) for x in args]
        a = [x.value if isinstance(x, EnumMember) else x for x in a]
        if all(isinstance(x, int) for x in a):
            r = range(*a)
            if len(r) > 20000:
                return Unk('range')
            return Native(r)
        return Unk('range')

    def b_enumerate(self, args, kw, n, fr):
        st = self.deref(kw.get('start', args[1] if len(args) > 1 else 0))
        items = self.iter_items(args[0], fr)
        if isinstance(self.deref(args[0]), Unk):
            return AList([(Unk('i'), x) for x in items])
        return AList([(i + (st if isinstance(st, int) else 0), x) for i, x in enumerate(items)])

    def b_zip(self, args, kw, n, fr):
        return AList([tuple(x) for x in zip(*[self.iter_items(a, fr) for a in args])])

    def b_reversed(self, args, kw, n, fr):
        return AList(list(reversed(self.iter_items(args[0], fr))))

    def b_sorted(self, args, kw, n, fr):
        items = self.iter_items(args[0], fr)
        items = [self.deref(x) for x in items]
        key = kw.get('key')
        rev = kw.get('reverse', False)
        try:
            ks = [self.deref(self.call(key, [x], {}, n)) if key is not None else x for x in items]
            if all(isinstance(k, CONST) or isinstance(k, tuple) for k in ks):
                order = sorted(range(len(items)), key=lambda i: ks[i], reverse=bool(self.deref(rev)))
                return AList([items[i] for i in order])
        except TypeError:
            pass
        return AList(items)

    def b_any(self, args, kw, n, fr):
        return any(self.truth(x) for x in self.iter_items(args[0], fr))

    def b_all(self, args, kw, n, fr):
        return all(self.truth(x) for x in self.iter_items(args[0], fr))

    def _minmax(self, f, args, kw, n, fr):
        items = self.iter_items(args[0], fr) if len(args) == 1 else list(args)
        items = [self.deref(x) for x in items]
        if not items:
            if 'default' in kw:
                return kw['default']
            self.raise_('ValueError', n, fr)
        if kw.get('key') is None and all(isinstance(x, CONST) for x in items):
            try:
                return f(items)
            except TypeError:
                self.raise_('TypeError', n, fr)
        key = kw.get('key')
        if key is None and all(isinstance(x, CONST) or isinstance(x, EnumMember) and x.is_val for x in items):
            try:
                return f(items, key=lambda x: x.value if isinstance(x, EnumMember) else x)
            except TypeError:
                self.raise_('TypeError', n, fr)
        if key is not None:
            ks = [self.deref(self.call(key, [x], {}, n, fr)) for x in items]
            ks = [k.value if isinstance(k, EnumMember) and k.is_val else k for k in ks]
            if all(isinstance(k, CONST) or isinstance(k, tuple) and all(isinstance(q, CONST) for q in k) for k in ks):
                try:
                    return items[f(range(len(items)), key=lambda i: ks[i])]
                except TypeError:
                    self.raise_('TypeError', n, fr)
        return Unk(f.__name__)

    def b_min(self, args, kw, n, fr):
        return self._minmax(min, args, kw, n, fr)

    def b_max(self, args, kw, n, fr):
        return self._minmax(max, args, kw, n, fr)

    def b_sum(self, args, kw, n, fr):
        items = [self.deref(x) for x in self.iter_items(args[0], fr)]
        if all(isinstance(x, (int, float, Fraction)) for x in items):
            st = self.deref(args[1]) if len(args) > 1 else 0
            return sum(items, st)
        return Unk('sum')

    def _num1(self, f, args):
        a = [self.deref(x) for x in args]
        if all(isinstance(x, (int, float, Fraction, type(None))) for x in a):
            try:
                return f(*a)
            except Exception:
                return Unk(f.__name__)
        return Unk(f.__name__)

    def b_abs(self, args, kw, n, fr):
        return self._num1(abs, args)

    def b_round(self, args, kw, n, fr):
        return self._num1(round, args)

    def b_pow(self, args, kw, n, fr):
        return self._num1(pow, args)

    def b_divmod(self, args, kw, n, fr):
        return self._num1(divmod, args)

    def b_chr(self, args, kw, n, fr):
        v = self.deref(args[0])
        return chr(v) if isinstance(v, int) else Unk('chr')

    def b_ord(self, args, kw, n, fr):
        v = self.deref(args[0])
        return ord(v) if isinstance(v, str) and len(v) == 1 else Unk('ord')

    def b_repr(self, args, kw, n, fr):
        v = self.deref(args[0])
        return repr(v) if isinstance(v, CONST) else Unk('repr')

    def b_print(self, args, kw, n, fr):
        f = kw.get('file')
        self.events.append(('print', getattr(f, 'name', 'stdout' if f is None else '?'), args))
        return None

    def b_iter(self, args, kw, n, fr):
        return AList(self.iter_items(args[0], fr))

    def b_next(self, args, kw, n, fr):
        v = self.deref(args[0])
        if isinstance(v, AList) and not v.open:
            if v.v:
                return v.v.pop(0)
            if len(args) > 1:
                return args[1]
            self.raise_('StopIteration', n, fr)
        return Unk('next')

    def b_id(self, args, kw, n, fr):
        o = self.deref(args[0])
        if isinstance(o, Obj) and getattr(self, 'stub_names', None):
            return 200000000 + self.ids.setdefault(id(o), (len(self.ids), o))[0]
        return Unk('id')

    def b_hash(self, args, kw, n, fr):
        return Unk('hash')

    def b_map(self, args, kw, n, fr):
        return AList([self.call(args[0], [x], {}, n) for x in self.iter_items(args[1], fr)])

    def b_filter(self, args, kw, n, fr):
        f = self.deref(args[0])
        return AList([x for x in self.iter_items(args[1], fr)
                      if self.truth(x if f is None else self.call(f, [x], {}, n))])

    def b_vars(self, args, kw, n, fr):
        return ADict(open=True)

    def b_format(self, args, kw, n, fr):
        a = [self.deref(x) for x in args]
        if all(isinstance(x, CONST) for x in a):
            return format(*a)
        return Unk('format')

    # ---- bound methods on containers / constants / objects
    def call_bound(self, o, name, args, kw, n, fr):
        o = self.deref(o)
        if isinstance(o, Obj):
            mm = self._find_mm(o, name)
            if mm:
                return mm(self, o, args, kw)
            self.events.append(('ocall', o, name, args, kw))
            if name in ('append', 'insert', 'addSpannedElements', 'addElement', 'coreInsert', 'coreAppend'):
                return None
            return Unk(f'{o.cname}.{name}()')
        if isinstance(o, str):
            a = [self.deref(x) for x in args]
            if name == 'join' and a:
                items = [self.deref(x) for x in self.iter_items(a[0], fr)]
                if all(isinstance(x, str) for x in items) and not getattr(a[0], 'open', False):
                    return o.join(items)
                return Unk('join')
            if name == 'format':
                kk = {k: self.deref(v) for k, v in kw.items()}
                if all(isinstance(x, CONST) for x in a) and all(isinstance(x, CONST) for x in kk.values()):
                    try:
                        return o.format(*a, **kk)
                    except Exception:
                        return Unk('format')
                return Unk('format')
            a = [x if not isinstance(x, AList) else x for x in a]
            if all(isinstance(x, CONST) or isinstance(x, tuple) for x in a):
                try:
                    kk = {k: self.deref(v) for k, v in kw.items()}
                    return self.wrap(getattr(o, name)(*a, **kk))
                except ValueError:
                    self.raise_('ValueError', n, fr)
                except (TypeError, AttributeError):
                    self.raise_('TypeError', n, fr)
                except Exception:
                    return Unk(f'str.{name}')
            return Unk(f'str.{name}')
        if isinstance(o, AList):
            return self.list_method(o, name, args, kw, n, fr)
        if isinstance(o, ADict):
            return self.dict_method(o, name, args, kw, n, fr)
        if isinstance(o, ASet):
            return self.set_method(o, name, args, kw, n, fr)
        if isinstance(o, tuple):
            if name == 'index':
                for i, x in enumerate(o):
                    if self.same(x, args[0]):
                        return i
                if any(isinstance(self.deref(x), Unk) for x in list(o) + args):
                    return Unk('index')
                self.raise_('ValueError', n, fr)
            if name == 'count':
                return sum(1 for x in o if self.same(x, args[0]))
            return Unk('tuple')
        if isinstance(o, Native):
            a = [self.deref(x) for x in args]
            if all(isinstance(x, CONST) for x in a):
                try:
                    r = getattr(o.v, name)(*a, **{k: self.deref(v) for k, v in kw.items()})
                    return None if r is None else self.wrap(r)
                except IndexError:
                    self.raise_('IndexError', n, fr)
                except Exception:
                    return Unk(f'native.{name}')
            return Unk(f'native.{name}')
        if isinstance(o, (int, float, Fraction, bytes)):
            a = [self.deref(x) for x in args]
            try:
                return self.wrap(getattr(o, name)(*a))
            except Exception:
                return Unk(f'num.{name}')
        if isinstance(o, type):
            a = [self.deref(x) for x in args]
            if o is dict and name == 'fromkeys':
                v = args[1] if len(args) > 1 else None
                return ADict({self.hashable(k): v for k in self.iter_items(a[0], fr)})
            if all(isinstance(x, CONST) for x in a):
                try:
                    return self.wrap(getattr(o, name)(*a))
                except Exception:
                    return Unk(name)
            return Unk(name)
        return Unk(name)

    def list_method(self, o, name, args, kw, n, fr):
        if name in ('append', 'extend', 'insert', 'pop', 'remove', 'clear', 'sort', 'reverse'):
            self.mutate(o)
        if name == 'append':
            o.v.append(args[0])
            return None
        if name == 'extend':
            src = self.deref(args[0])
            o.v.extend(self.iter_items(src, fr))
            if getattr(src, 'open', False):
                o.open = True
            return None
        if name == 'insert':
            i = self.deref(args[0])
            if isinstance(i, int):
                o.v.insert(i, args[1])
            else:
                o.v.append(args[1])
            return None
        if name == 'pop':
            i = self.deref(args[0]) if args else -1
            if o.open:
                return Unk('pop')
            if not o.v:
                self.raise_('IndexError', n, fr)
            if isinstance(i, int):
                if not -len(o.v) <= i < len(o.v):
                    self.raise_('IndexError', n, fr)
                return o.v.pop(i)
            return Unk('pop')
        if name == 'remove':
            for i, x in enumerate(o.v):
                if x is args[0] or self.same(x, args[0]):
                    o.v.pop(i)
                    return None
            if o.open or isinstance(self.deref(args[0]), Unk):
                return None
            self.raise_('ValueError', n, fr)
        if name == 'clear':
            o.v.clear()
            return None
        if name == 'reverse':
            o.v.reverse()
            return None
        if name == 'copy':
            return AList(o.v, o.open)
        if name == 'sort':
            r = self.b_sorted([AList(o.v)], kw, n, fr)
            o.v[:] = r.v
            return None
        if name == 'index':
            for i, x in enumerate(o.v):
                if x is args[0] or self.same(x, args[0]):
                    return i
            if o.open or isinstance(self.deref(args[0]), Unk):
                return Unk('index')
            self.raise_('ValueError', n, fr)
        if name == 'count':
            return sum(1 for x in o.v if x is args[0] or self.same(x, args[0]))
        return Unk(f'list.{name}')

    def dict_method(self, o, name, args, kw, n, fr):
        if name == 'get':
            k = self.hashable(args[0])
            dflt = args[1] if len(args) > 1 else None
            if k is MISSING:
                ku = self.deref(args[0])
                if isinstance(ku, Unk) and 'dom' in ku.facts:
                    c = ku.facts['dom']
                    i = self.choose(len(c), 'dom') if len(c) > 1 else 0
                    ku.facts['eq'] = c[i]
                    return self.dict_method(o, name, args, kw, n, fr)
                if not o.d and not o.open:
                    return dflt
                # hit or miss, value unknown
                u = Unk('dict.get')
                if self.choose(2, 'dict.get hit') == 1:
                    return u
                return dflt
            if k in o.d:
                return o.d[k]
            if o.open:
                if self.choose(2, f'get {k!r}') == 1:
                    v = Unk(f'[{k!r}]')
                    o.d[k] = v
                    return v
            return dflt
        if name == 'items':
            return AList([(k, v) for k, v in o.d.items()], o.open and not o.d)
        if name == 'keys':
            return AList(list(o.d.keys()), o.open and not o.d)
        if name == 'values':
            return AList(list(o.d.values()), o.open and not o.d)
        if name == 'copy':
            return ADict(o.d, o.open)
        self.mutate(o)
        if name == 'setdefault':
            k = self.hashable(args[0])
            if k is MISSING:
                return Unk('setdefault')
            return o.d.setdefault(k, args[1] if len(args) > 1 else None)
        if name == 'update':
            if args:
                s = self.deref(args[0])
                if isinstance(s, ADict):
                    o.d.update(s.d)
                    o.open = o.open or s.open
                else:
                    o.open = True
            o.d.update(kw)
            return None
        if name == 'pop':
            k = self.hashable(args[0])
            if k is not MISSING and k in o.d:
                return o.d.pop(k)
            if len(args) > 1:
                return args[1]
            if o.open or k is MISSING:
                return Unk('pop')
            self.raise_('KeyError', n, fr, k)
        if name == 'clear':
            o.d.clear()
            return None
        if name == 'fromkeys':
            v = args[1] if len(args) > 1 else None
            return ADict({self.hashable(k): v for k in self.iter_items(args[0], fr)})
        return Unk(f'dict.{name}')

    def set_method(self, o, name, args, kw, n, fr):
        if name == 'add':
            self.mutate(o)
            if not any(x is args[0] or self.same(x, args[0]) for x in o.v):
                o.v.append(args[0])
            return None
        if name in ('discard', 'remove'):
            self.mutate(o)
            for i, x in enumerate(o.v):
                if x is args[0] or self.same(x, args[0]):
                    o.v.pop(i)
                    return None
            if name == 'remove' and not o.open and not isinstance(self.deref(args[0]), Unk):
                self.raise_('KeyError', n, fr)
            return None
        if name in ('union', 'update'):
            items = [x for a in args for x in self.iter_items(a, fr)]
            r = self._mkset(o.v + items)
            if name == 'update':
                self.mutate(o)
                o.v = r.v
                return None
            return r
        if name == 'copy':
            return ASet(o.v, o.open)
        if name == 'clear':
            o.v.clear()
            return None
        if name in ('issubset', 'issuperset', 'intersection', 'difference', 'isdisjoint'):
            other = self.iter_items(args[0], fr)
            inn = [x for x in o.v if any(self.same(x, y) for y in other)]
            if name == 'issubset':
                return len(inn) == len(o.v)
            if name == 'issuperset':
                return all(any(self.same(x, y) for y in o.v) for x in other)
            if name == 'intersection':
                return ASet(inn)
            if name == 'isdisjoint':
                return not inn
            return ASet([x for x in o.v if x not in inn])
        if name == 'pop':
            return o.v.pop() if o.v else self.raise_('KeyError', n, fr)
        return Unk(f'set.{name}')

    # ------------------------------------------------------------ statements
    def block(self, stmts, fr):
        for s in stmts:
            self.st(s, fr)

    def st(self, s, fr):
        self.steps += 1
        if self.steps > self.max_steps:
            raise Cut('steps')
        getattr(self, 's_' + type(s).__name__, self.s_other)(s, fr)

    def s_other(self, s, fr):
        pass

    def s_Expr(self, s, fr):
        if not isinstance(s.value, ast.Constant):
            self.ev(s.value, fr)

    def s_Pass(self, s, fr):
        pass

    def s_Return(self, s, fr):
        raise _Return(self.ev(s.value, fr) if s.value is not None else None)

    def s_Assign(self, s, fr):
        v = self.ev(s.value, fr)
        for t in s.targets:
            self.assign(t, v, fr)

    def s_AnnAssign(self, s, fr):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, fr), fr)

    def s_AugAssign(self, s, fr):
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.lookup(t.id, fr)
        elif isinstance(t, ast.Attribute):
            ob = self.ev(t.value, fr)
            cur = self.getattr(ob, t.attr, t, fr)
        else:
            ob = self.ev(t.value, fr)
            ix = self.ev(t.slice, fr) if not isinstance(t.slice, ast.Slice) else Unk('slice')
            cur = self.getitem(ob, ix, t, fr)
        v = self.ev(s.value, fr)
        c = self.deref(cur)
        if isinstance(c, AList) and isinstance(s.op, ast.Add):
            self.mutate(c)
            c.v.extend(self.iter_items(v, fr))
            r = c
        else:
            r = self.binop(type(s.op), cur, v, s, fr)
        if isinstance(t, ast.Name):
            self.assign(t, r, fr)
        elif isinstance(t, ast.Attribute):
            self.setattr(ob, t.attr, r, fr, t)
        else:
            self.setitem(ob, ix, r, t, fr)

    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            if t.id in fr.globals_:
                fr.mod.cache[t.id] = v
                self.dirty.append((fr.mod, t.id))
                return
            if t.id in fr.nonlocals:
                f = fr.closure
                while f is not None:
                    if t.id in f.locals:
                        f.locals[t.id] = v
                        return
                    f = f.closure
            fr.locals[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            vv = self.deref(v)
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if isinstance(vv, (tuple, AList, str, Native, ASet)) and not getattr(vv, 'open', False):
                items = self.iter_items(vv, fr)
                if star:
                    i = star[0]
                    after = len(t.elts) - i - 1
                    if len(items) < len(t.elts) - 1:
                        self.raise_('ValueError', t, fr)
                    parts = items[:i] + [AList(items[i:len(items) - after])] + items[len(items) - after:]
                    for e, x in zip(t.elts, parts):
                        self.assign(e.value if isinstance(e, ast.Starred) else e, x, fr)
                    return
                if len(items) != len(t.elts):
                    self.raise_('ValueError', t, fr, 'unpack')
                for e, x in zip(t.elts, items):
                    self.assign(e, x, fr)
            else:
                if vv is None or isinstance(vv, (int, float)):
                    self.raise_('TypeError', t, fr, 'unpack')
                for i, e in enumerate(t.elts):
                    self.assign(e.value if isinstance(e, ast.Starred) else e,
                                self.getitem(vv, i) if isinstance(vv, Unk) else Unk('unpack'), fr)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, fr), t.attr, v, fr, t)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, fr)
            if isinstance(t.slice, ast.Slice):
                ov = self.deref(o)
                if isinstance(ov, AList):
                    self.mutate(ov)
                    ov.v = self.iter_items(v, fr)
                return
            self.setitem(o, self.ev(t.slice, fr), v, t, fr)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, fr)

    def s_If(self, s, fr):
        if core.is_type_checking(s.test):
            self.block(s.orelse, fr)
            return
        if self.truth(self.ev(s.test, fr), self._lab(s.test)):
            self.block(s.body, fr)
        else:
            self.block(s.orelse, fr)

    def s_For(self, s, fr):
        it = self.ev(s.iter, fr)
        live = self.deref(it)
        if isinstance(live, AList) and not live.open:
            # iterate live (the program may append while iterating)
            i = 0
            broke = False
            while i < len(live.v):
                x = live.v[i]
                i += 1
                if i > 20000:
                    raise Cut('loop')
                self.assign(s.target, x, fr)
                try:
                    self.block(s.body, fr)
                except _Break:
                    broke = True
                    break
                except _Continue:
                    continue
            if not broke:
                self.block(s.orelse, fr)
            return
        broke = False
        for x in self.iter_items(it, fr):
            self.assign(s.target, x, fr)
            try:
                self.block(s.body, fr)
            except _Break:
                broke = True
                break
            except _Continue:
                continue
        if not broke:
            self.block(s.orelse, fr)

    s_AsyncFor = s_For

    def s_While(self, s, fr):
        k = 0
        while True:
            before = self.pos
            c = self.ev(s.test, fr)
            tv = self.truth(c, self._lab(s.test))
            if not tv:
                self.block(s.orelse, fr)
                return
            k += 1
            if k > 5000 or (self.pos > before and k > 3):
                raise Cut('while')
            try:
                self.block(s.body, fr)
            except _Break:
                return
            except _Continue:
                continue

    def s_Break(self, s, fr):
        raise _Break()

    def s_Continue(self, s, fr):
        raise _Continue()

    def s_Raise(self, s, fr):
        if s.exc is None:
            e = fr.locals.get('__exc__')
            if e is not None:
                raise ARaise(e, s, fr)
            self.raise_('RuntimeError', s, fr)
        v = self.deref(self.ev(s.exc, fr))
        if isinstance(v, type):
            v = Obj(v.__name__)
        elif isinstance(v, ClassRef):
            v = Obj(v)
        raise ARaise(v, s, fr)

    def exc_match(self, e, h, fr):
        if h.type is None:
            return True
        k = self.deref(self.ev(h.type, fr))
        ks = k if isinstance(k, tuple) else (k,)
        for x in ks:
            if isinstance(e, Obj):
                if isinstance(e.cls, ClassRef):
                    if isinstance(x, ClassRef) and self.subclass_of(e.cls, x):
                        return True
                    if isinstance(x, type):
                        for b in self.mro(e.cls):
                            if isinstance(b, type) and issubclass(b, x):
                                return True
                        if x in (Exception, BaseException):
                            return True
                else:
                    b = BUILTIN_EXC.get(e.cname)
                    if isinstance(x, type) and b is not None and issubclass(b, x):
                        return True
                    if isinstance(x, (Ext, ClassRef)) and x.name.split('.')[-1] == e.cname:
                        return True
                    if b is None and x in (Exception, BaseException):
                        return True
            elif isinstance(e, Unk):
                if self.choose(2, 'except') == 0:
                    return True
        return False

    def s_Try(self, s, fr):
        try:
            try:
                self.block(s.body, fr)
            except ARaise as e:
                for h in s.handlers:
                    if self.exc_match(e.exc, h, fr):
                        saved = fr.locals.get('__exc__')
                        fr.locals['__exc__'] = e.exc
                        if h.name:
                            fr.locals[h.name] = e.exc
                        self.block(h.body, fr)
                        fr.locals['__exc__'] = saved
                        break
                else:
                    raise
            else:
                self.block(s.orelse, fr)
        finally:
            # a control-flow exception is in flight or not: the finally body is analysed either way
            self.block(s.finalbody, fr)

    s_TryStar = s_Try

    def s_With(self, s, fr):
        for it in s.items:
            v = self.ev(it.context_expr, fr)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, fr)
        self.block(s.body, fr)

    s_AsyncWith = s_With

    def s_Assert(self, s, fr):
        v = self.ev(s.test, fr)
        if not self.truth(v, self._lab(s.test)):
            if isinstance(self.deref(v), Unk) or True:
                self.raise_('AssertionError', s, fr)

    def s_Delete(self, s, fr):
        for t in s.targets:
            if isinstance(t, ast.Name):
                fr.locals.pop(t.id, None)
            elif isinstance(t, ast.Attribute):
                o = self.deref(self.ev(t.value, fr))
                if isinstance(o, (Obj, Unk)):
                    o.attrs.pop(t.attr, None)
            elif isinstance(t, ast.Subscript) and not isinstance(t.slice, ast.Slice):
                o = self.deref(self.ev(t.value, fr))
                k = self.deref(self.ev(t.slice, fr))
                if isinstance(o, ADict):
                    self.mutate(o)
                    kk = self.hashable(k)
                    if kk is not MISSING:
                        if kk not in o.d and not o.open:
                            self.raise_('KeyError', s, fr)
                        o.d.pop(kk, None)
                elif isinstance(o, AList) and isinstance(k, int) and not o.open:
                    self.mutate(o)
                    if not -len(o.v) <= k < len(o.v):
                        self.raise_('IndexError', s, fr)
                    o.v.pop(k)

    def s_Global(self, s, fr):
        fr.globals_.update(s.names)

    def s_Nonlocal(self, s, fr):
        fr.nonlocals.update(s.names)

    def s_Import(self, s, fr):
        for a in s.names:
            fr.locals[a.asname or a.name.split('.')[0]] = self._import(fr.mod, s, a)

    def s_ImportFrom(self, s, fr):
        for a in s.names:
            if a.name != '*':
                fr.locals[a.asname or a.name] = self._import(fr.mod, s, a)

    def s_FunctionDef(self, s, fr):
        fr.locals[s.name] = FuncRef(s, fr.mod, None, closure=fr)

    s_AsyncFunctionDef = s_FunctionDef

    def s_ClassDef(self, s, fr):
        fr.locals[s.name] = self.classref(fr.mod, s)

    def s_Match(self, s, fr):
        subj = self.ev(s.subject, fr)
        for c in s.cases:
            b = {}
            if self.pmatch(c.pattern, subj, fr, b):
                fr.locals.update(b)
                if c.guard is None or self.truth(self.ev(c.guard, fr), self._lab(c.guard)):
                    self.block(c.body, fr)
                    return

    def pmatch(self, p, v, fr, b):
        if isinstance(p, ast.MatchValue):
            return self.truth(self.eq(v, self.ev(p.value, fr)))
        if isinstance(p, ast.MatchSingleton):
            return self.is_(v, p.value)
        if isinstance(p, ast.MatchOr):
            return any(self.pmatch(q, v, fr, b) for q in p.patterns)
        if isinstance(p, ast.MatchAs):
            if p.pattern is not None and not self.pmatch(p.pattern, v, fr, b):
                return False
            if p.name:
                b[p.name] = v
            return True
        if isinstance(p, ast.MatchSequence):
            vv = self.deref(v)
            if isinstance(vv, (tuple, AList)):
                items = list(vv) if isinstance(vv, tuple) else vv.v
                if len(items) != len(p.patterns):
                    return False
                return all(self.pmatch(q, x, fr, b) for q, x in zip(p.patterns, items))
            return self.choose(2, 'match') == 1
        return self.choose(2, 'match') == 1

    # ------------------------------------------------------------ API
    def fn(self, cname, mname) -> FuncRef:
        c = self.cls(cname)
        v = self.class_attr(c, mname)
        if not isinstance(v, FuncRef):
            raise AnalysisError(f'{cname}.{mname} is not a function in the package')
        return v

    def table(self, cname, name):
        v = self.class_attr(self.cls(cname), name)
        if v is MISSING:
            raise AnalysisError(f'{cname}.{name} not found')
        return v


class ClassFrame(Frame):
    def __init__(self, ip, c):
        super().__init__(None, c.mod, c, None)
        self.ip = ip


_YIELD = {}


def _has_yield(node):
    k = id(node)
    if k not in _YIELD:
        _YIELD[k] = (node, any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in core.walk_fn(node)))
    return _YIELD[k][1]


EXT_CONSTS = {
    'sys.maxsize': 9223372036854775807,
    'math.inf': float('inf'), 'math.pi': math.pi,
    're.IGNORECASE': int(re.IGNORECASE), 're.I': int(re.I), 're.MULTILINE': int(re.MULTILINE),
    're.DOTALL': int(re.DOTALL),
}


def _m_opfrac(ip, args, kw):
    v = ip.deref(args[0])
    if isinstance(v, (int, float, Fraction)) or v is None:
        return opfrac(v)
    return Unk('opFrac')


DEFAULT_MODELS = {
    'music21.common.numberTools.opFrac': _m_opfrac,
}
DEFAULT_METHOD_MODELS = {}
