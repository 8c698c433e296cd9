"""Whole-program may-alias analysis for objects that outlive a call: module-level and class-level values, default arguments and
results of cached functions.  Flow-insensitive, field-based, context-insensitive; anything it cannot resolve is not an alias."""
from __future__ import annotations
import ast
from sa.core import repo, walk_fn, dotted, Fn

MUT_METHODS = {'append', 'extend', 'insert', 'remove', 'pop', 'clear', 'update', 'setdefault', 'add', 'discard', 'sort', 'reverse',
               'popitem', 'appendleft', 'popleft', 'difference_update', 'intersection_update', 'symmetric_difference_update',
               '__setitem__', '__delitem__'}
GROWING = {'append', 'extend', 'insert', 'appendleft'}
CONTAINER = (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp)
CONTAINER_CALLS = {'list', 'dict', 'set', 'defaultdict', 'OrderedDict', 'Counter', 'deque', 'bytearray', 'SimpleNamespace', 'WeakKeyDictionary',
                   'WeakValueDictionary', 'ChainMap'}
PASS = {'reversed', 'iter', 'enumerate', 'zip', 'cast', 'typing.cast', 't.cast'}
CACHES = {'cache', 'lru_cache', 'functools.cache', 'functools.lru_cache', 'cached', 'memoize'}


def is_mutable_value(v, classes):
    if isinstance(v, CONTAINER):
        return True
    if isinstance(v, ast.Call):
        d = dotted(v.func) or ''
        last = d.split('.')[-1]
        return last in CONTAINER_CALLS or (last in classes and not any(is_enum(c) for c in classes[last]))
    return False


def is_enum(c):
    return any((dotted(b) or '').split('.')[-1] in ('Enum', 'IntEnum', 'Flag', 'IntFlag', 'StrEnum', 'NamedTuple') for b in c.node.bases)


def elem_mutable(v, classes):
    if isinstance(v, ast.Dict):
        return any(is_mutable_value(x, classes) for x in v.values)
    if isinstance(v, (ast.List, ast.Set)):
        return any(is_mutable_value(x, classes) for x in v.elts)
    if isinstance(v, (ast.ListComp, ast.SetComp)):
        return is_mutable_value(v.elt, classes)
    if isinstance(v, ast.DictComp):
        return is_mutable_value(v.value, classes)
    return True


class Shared:
    def __init__(self):
        R = self.R = repo()
        self.locs = {}          # loc -> value node
        self.pts = {}
        self.fid = {id(f.node): f for f in R.functions}
        self.locals = {}
        self.globals_decl = {}
        self.classes = R.classes
        self.modname = {m.name: m for m in R.modules.values()}
        self.inst_attrs = {}     # class name -> attrs assigned through self anywhere
        self.init_attrs = {}
        self.attr_owners = {}
        self._froms = {}
        self._imps = {}
        self._collect()
        self._fix()

    # ------------------------------------------------------------------ collection
    def _collect(self):
        R = self.R
        for m in R.modules.values():
            for s in self._toplevel(m.tree.body):
                for name, v in self._binds(s):
                    if v is not None and is_mutable_value(v, self.classes):
                        self.locs[('G', m.name, name)] = v
        for cs in R.classes.values():
            for c in cs:
                if is_enum(c):
                    continue
                for name, stmts in c.assigns.items():
                    for s in stmts:
                        if s.value is not None and is_mutable_value(s.value, self.classes):
                            self.locs[('A', c.name, name)] = s.value
        for f in R.functions:
            a = f.node.args
            pos = a.posonlyargs + a.args
            for p, d in list(zip(pos[len(pos) - len(a.defaults):], a.defaults)) + [(p, d) for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]:
                if is_mutable_value(d, self.classes):
                    self.locs[('D', f.qual, p.arg)] = d
            names, gl = set(x.arg for x in pos + a.kwonlyargs), set()
            if a.vararg:
                names.add(a.vararg.arg)
            if a.kwarg:
                names.add(a.kwarg.arg)
            for n in walk_fn(f.node):
                if isinstance(n, ast.Global):
                    gl.update(n.names)
                elif isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    names.add(n.id)
            self.locals[id(f.node)] = names - gl
            self.globals_decl[id(f.node)] = gl
            if f.cls is not None:
                for n in walk_fn(f.node, nested=True):
                    if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id == 'self':
                        self.inst_attrs.setdefault(f.cls.name, set()).add(n.attr)
                        self.attr_owners.setdefault(n.attr, set()).add(f.cls.name)
                        if f.name in ('__init__', '__new__'):
                            self.init_attrs.setdefault(f.cls.name, set()).add(n.attr)
            if any(d.split('(')[0] in CACHES for d in f.decorators):
                self.locs[('C', f.qual, '')] = None
        for f in R.functions:
            for n in walk_fn(f.node):
                if isinstance(n, (ast.Assign, ast.AnnAssign)) and n.value is not None:
                    for t in (n.targets if isinstance(n, ast.Assign) else [n.target]):
                        if isinstance(t, ast.Attribute):
                            c = self.class_of(t.value, f)
                            if c is not None and not isinstance(n.value, ast.Constant):
                                self.locs.setdefault(('A', self.owner_class_attr(c, t.attr) or c, t.attr), n.value)
                        elif isinstance(t, ast.Name) and t.id in self.globals_decl[id(f.node)] and not isinstance(n.value, ast.Constant):
                            self.locs.setdefault(('G', f.mod.name, t.id), n.value)

    def _toplevel(self, body):
        for s in body:
            yield s
            if isinstance(s, (ast.If, ast.Try, ast.With)):
                for fld in ('body', 'orelse', 'finalbody'):
                    yield from self._toplevel(getattr(s, fld, []) or [])

    @staticmethod
    def _binds(s):
        if isinstance(s, ast.Assign):
            return [(t.id, s.value) for t in s.targets if isinstance(t, ast.Name)]
        if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
            return [(s.target.id, s.value)]
        return []

    # ------------------------------------------------------------------ resolution
    def mro(self, cname, seen=None):
        seen = seen if seen is not None else []
        if cname in seen:
            return seen
        seen.append(cname)
        for c in self.classes.get(cname, []):
            for b in c.node.bases:
                n = (dotted(b) or '').split('.')[-1]
                if n in self.classes:
                    self.mro(n, seen)
        return seen

    def method(self, cname, name):
        for n in self.mro(cname):
            for c in self.classes[n]:
                if name in c.methods:
                    return c.methods[name]
        return None

    def class_of(self, e, f: Fn):
        """the class object an expression denotes (name), or None"""
        if isinstance(e, ast.Name):
            if e.id in ('cls',) and f is not None and f.cls is not None:
                return f.cls.name
            if f is not None and e.id in self.locals.get(id(f.node), ()):
                return None
            return e.id if e.id in self.classes else None
        if isinstance(e, ast.Attribute):
            if e.attr == '__class__' and isinstance(e.value, ast.Name) and e.value.id == 'self' and f is not None and f.cls:
                return f.cls.name
            if e.attr in self.classes and not (isinstance(e.value, ast.Name) and e.value.id == 'self'):
                return e.attr
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == 'type' and len(e.args) == 1 \
                and isinstance(e.args[0], ast.Name) and e.args[0].id == 'self' and f is not None and f.cls:
            return f.cls.name
        return None

    def class_attr(self, cname, attr):
        for n in self.mro(cname):
            if ('A', n, attr) in self.locs:
                return {('A', n, attr)}
            if any(attr in c.assigns for c in self.classes[n]):
                return set()
        return set()

    def owner_class_attr(self, cname, attr):
        """class in whose body attr is defined (any value)"""
        for n in self.mro(cname):
            if any(attr in c.assigns for c in self.classes[n]):
                return n
        return None

    def global_of(self, mod, name, depth=0):
        if ('G', mod, name) in self.locs:
            return ('G', mod, name)
        m = self.modname.get(mod)
        if m is None or depth > 4:
            return None
        imp = self.froms(m)
        if name in imp:
            src, orig = imp[name]
            if src in self.modname:
                return self.global_of(src, orig, depth + 1)
        return None

    def froms(self, m):
        if m.name in self._froms:
            return self._froms[m.name]
        out = self._froms[m.name] = {}
        for s in ast.walk(m.tree):
            if isinstance(s, ast.ImportFrom):
                src = s.module or ''
                if s.level:
                    base = m.name.split('.')
                    if not m.path.endswith('__init__.py'):
                        base = base[:-1]
                    base = base[:len(base) - (s.level - 1)]
                    src = '.'.join(base + ([s.module] if s.module else []))
                for a in s.names:
                    out[a.asname or a.name] = (src, a.name)
        return out

    def scope_of(self, name, f):
        g = f
        while g is not None:
            if name in self.globals_decl.get(id(g.node), ()):
                return None
            if name in self.locals.get(id(g.node), ()):
                return g
            g = g.outer
        return None

    def callees(self, call, f):
        fn = call.func
        if isinstance(fn, ast.Name):
            if self.scope_of(fn.id, f) is not None:
                pass
            out = [g for g in self.R.by_name.get(fn.id, []) if (g.cls is None or g.outer is not None) and
                   (g.mod is f.mod or g.outer is None)]
            return out[:1] if len(out) == 1 else []
        if isinstance(fn, ast.Attribute):
            c = self.class_of(fn.value, f)
            if c is not None:
                m = self.method(c, fn.attr)
                return [m] if m is not None else []
            if isinstance(fn.value, ast.Name) and fn.value.id == 'self' and f.cls is not None:
                m = self.method(f.cls.name, fn.attr)
                return [m] if m is not None else []
            if isinstance(fn.value, ast.Call) and isinstance(fn.value.func, ast.Name) and fn.value.func.id == 'super' and f.cls is not None:
                for n in self.mro(f.cls.name)[1:]:
                    for k in self.classes[n]:
                        if fn.attr in k.methods:
                            return [k.methods[fn.attr]]
                return []
            out = self.R.by_name.get(fn.attr, [])
            return out if len(out) == 1 and fn.attr not in MUT_METHODS else []
        return []

    def bind(self, call, g, f):
        """(parameter name, argument node) pairs"""
        ps = g.params()
        skip = 0
        if ps and ps[0] in ('self', 'cls') and not g.is_static and not (
                isinstance(call.func, ast.Attribute) and self.class_of(call.func.value, f) is not None and ps[0] == 'self'):
            skip = 1
        out = []
        for i, a in enumerate(call.args):
            if isinstance(a, ast.Starred):
                break
            if i + skip < len(ps):
                out.append((ps[i + skip], a))
        allp = set(ps) | {x.arg for x in g.node.args.kwonlyargs}
        out += [(k.arg, k.value) for k in call.keywords if k.arg in allp]
        return out

    # ------------------------------------------------------------------ evaluation
    def elem(self, locs):
        out = set()
        for L in locs:
            if len(L) == 4:
                out.add(L)
                continue
            v = self.locs.get(L)
            if v is None or elem_mutable(v, self.classes):
                out.add(L + ('e',))
        return out

    def ev(self, e, f):
        if isinstance(e, ast.Name):
            s = self.scope_of(e.id, f)
            if s is not None:
                return self.pts.get(('v', id(s.node), e.id), set())
            g = self.global_of(f.mod.name, e.id)
            out = {g} if g else set()
            return out | self.pts.get(('m', f.mod.name, e.id), set())
        if isinstance(e, ast.Attribute):
            c = self.class_of(e.value, f)
            if c is not None:
                return self.class_attr(c, e.attr) | self.pts.get(('c', self.owner_class_attr(c, e.attr), e.attr), set())
            if isinstance(e.value, ast.Name) and e.value.id == 'self' and f.cls is not None:
                out = set()
                cn = f.cls.name
                m = self.method(cn, e.attr)
                if m is not None and m.is_property:
                    return self.pts.get(('r', id(m.node)), set())
                for n in self.mro(cn):
                    out |= self.pts.get(('f', n, e.attr), set())
                if not any(e.attr in self.init_attrs.get(n, ()) for n in self.mro(cn)):
                    out |= self.class_attr(cn, e.attr)
                return out
            if isinstance(e.value, ast.Name) and self.scope_of(e.value.id, f) is None:
                d = self.import_alias(f, e.value.id)
                if d in self.modname:
                    g = self.global_of(d, e.attr)
                    return {g} if g else set()
            out = set()
            for n in self.attr_owners.get(e.attr, ()):
                out |= self.pts.get(('f', n, e.attr), set())
            ms = [g for g in self.R.by_name.get(e.attr, []) if g.is_property]
            if len(ms) == 1:
                out |= self.pts.get(('r', id(ms[0].node)), set())
            return out
        if isinstance(e, ast.Subscript):
            if isinstance(e.slice, ast.Slice):
                return set()
            return self.elem(self.ev(e.value, f))
        if isinstance(e, ast.Call):
            d = dotted(e.func)
            if isinstance(e.func, ast.Attribute) and e.func.attr in ('get', 'setdefault', 'pop', 'values', 'items', '__getitem__'):
                b = self.ev(e.func.value, f)
                if b:
                    out = self.elem(b)
                    if e.func.attr in ('get', 'setdefault') and len(e.args) > 1:
                        out = out | self.ev(e.args[1], f)
                    # values()/items() give elements when iterated: mark as container of the same elements
                    return out
            if d in PASS:
                out = set()
                for a in e.args:
                    out |= self.ev(a, f)
                return out
            out = set()
            for g in self.callees(e, f):
                if ('C', g.qual, '') in self.locs:
                    out.add(('C', g.qual, ''))
                out |= self.pts.get(('r', id(g.node)), set())
            return out
        if isinstance(e, ast.IfExp):
            return self.ev(e.body, f) | self.ev(e.orelse, f)
        if isinstance(e, ast.BoolOp):
            out = set()
            for v in e.values:
                out |= self.ev(v, f)
            return out
        if isinstance(e, ast.NamedExpr):
            return self.ev(e.value, f)
        if isinstance(e, ast.Starred):
            return self.ev(e.value, f)
        return set()

    def import_alias(self, f, name):
        if f.mod.name not in self._imps:
            d = self._imps[f.mod.name] = {}
            for s in ast.walk(f.mod.tree):
                if isinstance(s, ast.Import):
                    for a in s.names:
                        d[a.asname or a.name.split('.')[0]] = a.name if a.asname else a.name.split('.')[0]
        d = self._imps[f.mod.name]
        if name in d:
            return d[name]
        src = self.froms(f.mod).get(name)
        if src is not None and f'{src[0]}.{src[1]}' in self.modname:
            return f'{src[0]}.{src[1]}'
        return None

    def _add(self, node, locs):
        cur = self.pts.setdefault(node, set())
        if locs - cur:
            cur |= locs
            self.changed = True

    def assign(self, t, v, f, locs=None):
        if isinstance(t, (ast.Tuple, ast.List)):
            if isinstance(v, (ast.Tuple, ast.List)) and len(v.elts) == len(t.elts):
                for a, b in zip(t.elts, v.elts):
                    self.assign(a, b, f)
            else:
                L = self.elem(self.ev(v, f)) if locs is None else locs
                for a in t.elts:
                    self.assign(a.value if isinstance(a, ast.Starred) else a, None, f, L)
            return
        L = locs if locs is not None else (self.ev(v, f) if v is not None else set())
        if isinstance(t, ast.Name):
            s = self.scope_of(t.id, f)
            self._add(('v', id(s.node), t.id) if s is not None else ('m', f.mod.name, t.id), L)
        elif isinstance(t, ast.Attribute):
            c = self.class_of(t.value, f)
            if c is not None:
                self._add(('c', self.owner_class_attr(c, t.attr) or c, t.attr), L)
            elif isinstance(t.value, ast.Name) and t.value.id == 'self' and f.cls is not None:
                self._add(('f', f.cls.name, t.attr), L)
            else:
                for n in self.attr_owners.get(t.attr, ()):
                    self._add(('f', n, t.attr), L)

    def _fix(self):
        for loc in self.locs:
            if loc[0] == 'D':
                for f in self.R.functions:
                    if f.qual == loc[1]:
                        self.pts.setdefault(('v', id(f.node), loc[2]), set()).add(loc)
        plan = []
        for f in self.R.functions:
            ops = []
            for n in walk_fn(f.node):
                if isinstance(n, ast.Assign):
                    ops += [('=', t, n.value) for t in n.targets]
                elif isinstance(n, ast.AnnAssign) and n.value is not None:
                    ops.append(('=', n.target, n.value))
                elif isinstance(n, ast.NamedExpr):
                    ops.append(('=', n.target, n.value))
                elif isinstance(n, (ast.For, ast.comprehension)):
                    ops.append(('for', n.target, n.iter))
                elif isinstance(n, ast.Return) and n.value is not None:
                    ops.append(('ret', None, n.value))
                elif isinstance(n, ast.Call):
                    for g in self.callees(n, f):
                        for p, a in self.bind(n, g, f):
                            ops.append(('arg', (g, p), a))
                elif isinstance(n, (ast.With,)):
                    for i in n.items:
                        if i.optional_vars is not None:
                            ops.append(('=', i.optional_vars, i.context_expr))
            plan.append((f, ops))
        self.n_constraints = sum(len(o) for _, o in plan)
        self._alias_cache = {}
        for _ in range(12):
            self.changed = False
            for f, ops in plan:
                for k, t, v in ops:
                    if k == '=':
                        self.assign(t, v, f)
                    elif k == 'for':
                        L = self.ev(v, f)
                        self.assign(t, None, f, self.elem(L) if L else set())
                    elif k == 'ret':
                        self._add(('r', id(f.node)), self.ev(v, f))
                    else:
                        g, p = t
                        self._add(('v', id(g.node), p), self.ev(v, f))
            if not self.changed:
                break

    def instance_class(self, loc):
        v = self.locs.get(loc[:3])
        if loc[0] == 'C' or len(loc) == 4 or not isinstance(v, ast.Call):
            return None
        n = (dotted(v.func) or '').split('.')[-1]
        return n if n in self.classes else None

    def mutates_self(self, cname, meth, seen=None):
        m = self.method(cname, meth)
        seen = seen if seen is not None else set()
        if m is None or id(m.node) in seen or m.is_static:
            return False
        seen.add(id(m.node))
        for n in walk_fn(m.node):
            if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == 'self' and isinstance(n.ctx, (ast.Store, ast.Del)):
                return True
            if isinstance(n, ast.Subscript) and isinstance(n.ctx, (ast.Store, ast.Del)) and (dotted(n.value) or '').startswith('self.'):
                return True
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute):
                d = dotted(n.func.value) or ''
                if n.func.attr in MUT_METHODS and d.startswith('self.'):
                    return True
                if d == 'self' and self.mutates_self(cname, n.func.attr, seen):
                    return True
        return False

    # ------------------------------------------------------------------ mutations
    def mutations(self):
        """(function, node, loc, how, key, value)"""
        out = []
        for f in self.R.functions:
            for n in walk_fn(f.node):
                tg = n.targets if isinstance(n, (ast.Assign, ast.Delete)) else [n.target] if isinstance(n, (ast.AugAssign, ast.AnnAssign)) else []
                if isinstance(n, ast.AnnAssign) and n.value is None:
                    continue
                for t in tg:
                    for x in (t.elts if isinstance(t, (ast.Tuple, ast.List)) else [t]):
                        val = getattr(n, 'value', None)
                        if isinstance(x, ast.Subscript):
                            for L in self.ev(x.value, f):
                                out.append((f, n, L, 'item', x.slice, val))
                        elif isinstance(x, ast.Attribute):
                            c = self.class_of(x.value, f)
                            if c is not None:
                                o = self.owner_class_attr(c, x.attr) or c
                                out.append((f, n, ('A', o, x.attr), 'rebind', None, val))
                            else:
                                for L in self.ev(x.value, f):
                                    out.append((f, n, L, 'attr', None, val))
                                if isinstance(n, ast.AugAssign) and isinstance(n.op, (ast.Add, ast.BitOr)):
                                    for L in self.ev(x, f):
                                        out.append((f, n, L, 'grow', None, val))
                        elif isinstance(x, ast.Name):
                            if x.id in self.globals_decl.get(id(f.node), ()):
                                out.append((f, n, ('G', f.mod.name, x.id), 'rebind', None, val))
                            elif isinstance(n, ast.AugAssign) and isinstance(n.op, (ast.Add, ast.BitOr, ast.Sub, ast.BitAnd)):
                                for L in self.ev(x, f):
                                    out.append((f, n, L, 'grow', None, val))
                if isinstance(n, ast.Call):
                    if isinstance(n.func, ast.Attribute) and n.func.attr in MUT_METHODS:
                        for L in self.ev(n.func.value, f):
                            key = val = None
                            how = 'grow' if n.func.attr in GROWING else 'change'
                            if n.func.attr in ('setdefault', '__setitem__') and len(n.args) == 2:
                                how, key, val = 'item', n.args[0], n.args[1]
                            out.append((f, n, L, how, key, val))
                    elif isinstance(n.func, ast.Attribute):
                        for L in self.ev(n.func.value, f):
                            c = self.instance_class(L)
                            if c is not None and self.mutates_self(c, n.func.attr):
                                out.append((f, n, L, 'method', None, None))
                    elif isinstance(n.func, ast.Name) and n.func.id in ('setattr', 'delattr') and n.args:
                        c = self.class_of(n.args[0], f)
                        if c is not None:
                            nm = n.args[1].value if len(n.args) > 1 and isinstance(n.args[1], ast.Constant) else '?'
                            out.append((f, n, ('A', c, nm), 'rebind', None, n.args[2] if len(n.args) > 2 else None))
                        else:
                            for L in self.ev(n.args[0], f):
                                out.append((f, n, L, 'attr', None, n.args[2] if len(n.args) > 2 else None))
        return out
