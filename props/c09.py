"""C09: results depend only on the input and the options."""
from __future__ import annotations
import ast
import functools
import re
from props.common import *
from sa.core import repo, walk_fn, dotted
from sa.shared import Shared, MUT_METHODS

EXPLANATION = ('Whole-program alias and effect analysis of everything that outlives a call (module and class level values, default '
               'arguments, cached results): nothing is changed at run time except memo tables, whose key must determine the stored value '
               '(backward slice).  Order-dependence analysis of every use of a set, ban on clocks, random numbers and hashes, and '
               'interpretation of every remembered token property before and after the text or the data type of the token changes.')


def run(rep):
    S = Shared()
    rep.analysed['shared locations'] = len(S.locs)
    rep.analysed['alias constraints'] = S.n_constraints
    shared_state(rep, S)
    external_state(rep)
    cached_functions(rep, S)
    set_order(rep)
    sources(rep)
    token_caches(rep)


def name_of(loc):
    k, a, b = loc[:3]
    return {'G': f'{a}.{b}', 'A': f'{a}.{b}', 'D': f'default of {b} in {a}', 'C': f'result of {a}'}[k] + (' (element)' if len(loc) == 4 else '')


@functools.lru_cache(maxsize=None)
def imports(mod):
    """local name -> imported dotted name, anywhere in the module"""
    out = {}
    for s in ast.walk(mod.tree):
        if isinstance(s, ast.ImportFrom) and s.module and not s.level:
            for a in s.names:
                out[a.asname or a.name] = f'{s.module}.{a.name}'
        elif isinstance(s, ast.Import):
            for a in s.names:
                out[a.asname or a.name.split('.')[0]] = a.name if a.asname else a.name.split('.')[0]
    return out


# ------------------------------------------------------------------------------------------------ dependence
class Slice:
    """backward slice inside one function, flow-insensitive: what the value of an expression may depend on"""
    def __init__(self, f, cut=()):
        self.f = f
        self.cut = set(cut)
        self.params = [p for p in params_of(f) if p != 'cls']
        self.par = parents(f.node)
        self.defs = {}
        for n in walk_fn(f.node):
            if isinstance(n, (ast.Assign, ast.AnnAssign, ast.AugAssign)):
                if n.value is None:
                    continue
                for t in (n.targets if isinstance(n, ast.Assign) else [n.target]):
                    base = t
                    extra = []
                    while isinstance(base, (ast.Subscript, ast.Attribute)):
                        if isinstance(base, ast.Subscript):
                            extra.append(base.slice)
                        base = base.value
                    for x in (base.elts if isinstance(base, (ast.Tuple, ast.List)) else [base]):
                        if isinstance(x, ast.Name):
                            self.defs.setdefault(x.id, []).append((n, [n.value] + extra))
            elif isinstance(n, ast.For):
                for x in ast.walk(n.target):
                    if isinstance(x, ast.Name):
                        self.defs.setdefault(x.id, []).append((n, [n.iter]))
            elif isinstance(n, ast.comprehension):
                for x in ast.walk(n.target):
                    if isinstance(x, ast.Name):
                        self.defs.setdefault(x.id, []).append((None, [n.iter]))
            elif isinstance(n, ast.NamedExpr):
                self.defs.setdefault(n.target.id, []).append((n, [n.value]))
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUT_METHODS and isinstance(n.func.value, ast.Name):
                self.defs.setdefault(n.func.value.id, []).append((n, list(n.args)))

    def conditions(self, n):
        out = []
        while n is not None and n is not self.f.node:
            p = self.par.get(n)
            if isinstance(p, (ast.If, ast.While, ast.IfExp)) and n is not p.test:
                out.append(p.test)
            n = p
        return out

    def deps(self, exprs, control=True):
        out, seen, todo = set(), set(), list(exprs)
        while todo:
            e = todo.pop()
            for x in ast.walk(e):
                if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == 'self' and isinstance(x.ctx, ast.Load):
                    p = self.par.get(x)
                    if not (isinstance(p, ast.Call) and p.func is x):
                        out.add(f'self.{x.attr}')
                if not isinstance(x, ast.Name) or x.id in seen or x.id in self.cut:
                    continue
                seen.add(x.id)
                if x.id in self.params and x.id != 'self':
                    out.add(x.id)
                for stmt, es in self.defs.get(x.id, []):
                    todo += es
                    if control and stmt is not None:
                        todo += self.conditions(stmt)
        return out


def params_of(f):
    a = f.node.args
    return [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs] + ([a.vararg.arg] if a.vararg else []) + ([a.kwarg.arg] if a.kwarg else [])


def parents(root):
    par = {}
    for n in ast.walk(root):
        for c in ast.iter_child_nodes(n):
            par[c] = n
    return par


LOSSLESS = {'str', 'tuple', 'repr'}


def key_names(key, sl):
    """names that the key determines completely; a name used only inside a lossy call is not determined"""
    out = set()
    todo = [key]
    while todo:
        e = todo.pop()
        if isinstance(e, ast.Name):
            if e.id in out:
                continue
            out.add(e.id)
            ds = sl.defs.get(e.id, [])
            if len(ds) == 1 and e.id not in sl.params:       # key variable built from a tuple or a name
                todo += [x for x in ds[0][1] if isinstance(x, (ast.Tuple, ast.Name)) or is_lossless(x)]
        elif isinstance(e, ast.Tuple):
            todo += e.elts
        elif isinstance(e, ast.JoinedStr):
            todo += [v.value for v in e.values if isinstance(v, ast.FormattedValue)]
        elif is_lossless(e):
            todo += e.args
        elif isinstance(e, ast.Attribute):
            out.add(ast.unparse(e))
    return out


def is_lossless(e):
    return isinstance(e, ast.Call) and (dotted(e.func) or '') in LOSSLESS and len(e.args) == 1


# ------------------------------------------------------------------------------------------------ shared state
def shared_state(rep, S):
    def go():
        by = {}
        for m in S.mutations():
            by.setdefault(m[2][:3], []).append(m)
        for loc, v in sorted(S.locs.items(), key=str):
            ms = by.pop(loc, [])
            judge_loc(rep, S, loc, v, ms)
        for loc, ms in sorted(by.items(), key=str):       # rebinding of a slot that holds an immutable value
            judge_loc(rep, S, loc, None, ms)
    rep.family('shared-state', 'no function changes a value that outlives the call, except a memo whose key determines the value', go, 60)


def judge_loc(rep, S, loc, init, ms):
    what = name_of(loc)
    if not ms:
        rep.ok(f'{what} is never changed')
        return
    stores = [m for m in ms if m[3] in ('item', 'rebind')]
    for f, n, L, how, key, val in ms:
        site = f'{f.where}:{n.lineno}'
        inst = f'{what} changed in {f.qual}'
        if isinstance(n, ast.Delete) or how == 'change' and isinstance(n.func, ast.Attribute) and n.func.attr in ('clear', 'pop', 'popitem'):
            if any(m[3] == 'item' for m in stores) and loc[0] != 'D':
                rep.ok(inst + ' (eviction)')
                continue
        if loc[0] == 'D' or how in ('grow', 'change', 'attr', 'method') or len(L) == 4 or loc[0] == 'C':
            rep.bad(inst, site, f'{ast.unparse(n)[:100]} changes {what}, which every later conversion sees')
            continue
        if isinstance(n, ast.AugAssign):
            rep.bad(inst, site, f'{ast.unparse(n)[:100]} accumulates in {what} across conversions')
            continue
        if how == 'item' and init is not None and not empty(init) and loc[0] in ('G', 'A'):
            rep.bad(inst, site, f'{ast.unparse(n)[:100]} changes the constant table {what}')
            continue
        sl0 = Slice(f)
        cut = key_names(key, sl0) if key is not None else set()
        sl = Slice(f, cut)
        deps = sl.deps([val] if val is not None else [])
        # a value remembered only for particular values of a parameter is determined by the guard
        guards = set()
        for c in sl.conditions(n):
            guards |= {x.id for x in ast.walk(c) if isinstance(x, ast.Name)} | \
                {ast.unparse(x) for x in ast.walk(c) if isinstance(x, ast.Attribute)}
        deps = {d for d in deps if d not in guards and d not in cut and not any(g.startswith(d + '.') for g in cut)}
        # instance state that only constructors set is part of the identity of self, never of a process-wide memo
        deps = {d for d in deps if not d.startswith('self.') or not is_constant_attr(S, f, d[5:])}
        if deps:
            rep.bad(inst, site, f'{ast.unparse(n)[:100]} remembers a value that also depends on {", ".join(sorted(deps))}, '
                                f'which {"the key does not contain" if how == "item" else "differs from call to call"}')
        else:
            rep.ok(inst + ' (memo)')


def empty(v):
    return (isinstance(v, ast.Dict) and not v.keys) or (isinstance(v, (ast.List, ast.Set)) and not v.elts) or \
        (isinstance(v, ast.Call) and not v.args)


def is_constant_attr(S, f, attr):
    if f.cls is None:
        return False
    for n in S.mro(f.cls.name):
        if any(attr in c.assigns or attr in c.methods for c in S.classes[n]):
            return not any(attr in S.inst_attrs.get(k, ()) for k in S.mro(f.cls.name))
    return False


# ------------------------------------------------------------------------------------------------ other modules
def external_state(rep):
    def go():
        R = repo()
        for f in R.functions:
            roots = imports(f.mod)
            loc = {x.id for x in walk_fn(f.node) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} | set(params_of(f))
            o = f.outer
            while o is not None:
                loc |= {x.id for x in walk_fn(o.node) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} | set(params_of(o))
                o = o.outer

            def ext(e):
                d = dotted(e)
                if d is None:
                    return None
                r = d.split('.')[0]
                if r in loc or r not in roots or roots[r].startswith('converter21'):
                    return None
                if roots[r] == r and '.' not in d:
                    return d if r in ('environ',) else None
                return d
            for n in walk_fn(f.node):
                tg = n.targets if isinstance(n, (ast.Assign, ast.Delete)) else [n.target] if isinstance(n, (ast.AugAssign, ast.AnnAssign)) else []
                for t in tg:
                    for x in (t.elts if isinstance(t, (ast.Tuple, ast.List)) else [t]):
                        e = None
                        if isinstance(x, ast.Attribute):
                            e = ext(x) if ext(x.value) or (dotted(x.value) in roots and dotted(x.value) not in loc) else None
                        elif isinstance(x, ast.Subscript):
                            e = ext(x.value)
                        if e is None:
                            continue
                        val = getattr(n, 'value', None)
                        deps = Slice(f).deps([val] if val is not None else [])
                        if deps or isinstance(n, ast.AugAssign):
                            rep.bad(f'{e} changed in {f.qual}', f'{f.where}:{n.lineno}',
                                    f'{ast.unparse(n)[:100]} changes a value of another package that later conversions see')
                        else:
                            rep.ok(f'{e} set to a constant in {f.qual}')
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUT_METHODS:
                    e = ext(n.func.value)
                    if e is not None and '.' in e and e.split('.')[-1].isupper():
                        rep.bad(f'{e} changed in {f.qual}', f'{f.where}:{n.lineno}',
                                f'{ast.unparse(n)[:100]} changes a table of another package')
            rep.ok(f.qual)
    rep.family('other-packages', 'values of music21 and the standard library are only ever set to constants', go, 500)


def cached_functions(rep, S):
    def go():
        for f in S.R.functions:
            if ('C', f.qual, '') not in S.locs:
                continue
            bad = None
            if f.params()[:1] == ['self'] and not f.is_static:
                for n in walk_fn(f.node):
                    if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == 'self' and isinstance(n.ctx, ast.Load) \
                            and any(n.attr in S.inst_attrs.get(k, ()) - S.init_attrs.get(k, set()) or assigned_later(S, k, n.attr)
                                    for k in S.mro(f.cls.name)):
                        bad = f'the cached result depends on self.{n.attr}, which changes after construction'
            rep.expect(bad is None, f'cached function {f.qual}', f.where, bad or '')
    rep.family('cached-functions', 'a cached function depends on nothing but its arguments', go, 1)


def assigned_later(S, cname, attr):
    for c in S.classes[cname]:
        for m in list(c.methods.values()) + list(c.setters.values()):
            if m.name == '__init__':
                continue
            for n in walk_fn(m.node, nested=True):
                if isinstance(n, ast.Attribute) and n.attr == attr and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id == 'self':
                    return True
    return False


# ------------------------------------------------------------------------------------------------ set order
INSENSITIVE = {'sorted', 'set', 'frozenset', 'any', 'all', 'sum', 'min', 'max', 'len', 'bool', 'Counter', 'isinstance', 'hasattr', 'id', 'type'}
SEQUENCE = {'list', 'tuple', 'enumerate', 'iter', 'reversed', 'zip', 'map', 'filter', 'next', 'deque'}
STABLE = re.compile(r'\b(int|float|Fraction|HumNum|HumNumIn|OffsetQL|OffsetQLIn|bool)\b')
UNSTABLE = re.compile(r'\b(str|m21|music21|Hum\w+|Grid\w+|Mei\w+|Music21Object|Element|Any|object|\w*Spanner\w*)\b')


def ann_elem(a):
    """(is a set, element annotation)"""
    if a is None:
        return None
    s = ast.unparse(a).replace("'", '').replace('"', '')
    m = re.match(r'^(?:t\.|typing\.)?(set|frozenset|Set|FrozenSet|AbstractSet|list|List|tuple|Tuple|Sequence|Iterable)(?:\[(.*)\])?(?: *\| *None)?$', s)
    if not m:
        return None
    return m.group(1).lower() in ('set', 'frozenset', 'abstractset'), m.group(2) or '?'


class SetTypes:
    def __init__(self, R):
        self.R = R
        self.attr = {}
        for f in R.functions:
            for n in walk_fn(f.node):
                if isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Attribute):
                    k = ann_elem(n.annotation)
                    self.attr.setdefault(n.target.attr, []).append(k)
                elif isinstance(n, ast.Assign):
                    for t in n.targets:
                        if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == 'self' and \
                                isinstance(n.value, (ast.Set, ast.SetComp)) or (isinstance(t, ast.Attribute) and isinstance(n.value, ast.Call) and dotted(n.value.func) in ('set', 'frozenset')):
                            self.attr.setdefault(t.attr, []).append((True, '?'))
        for cs in R.classes.values():
            for c in cs:
                for name, ss in c.assigns.items():
                    for s in ss:
                        k = ann_elem(s.annotation) if isinstance(s, ast.AnnAssign) else None
                        if k is None and isinstance(s.value, ast.Set):
                            k = (True, 'str' if any(isinstance(e, ast.Constant) and isinstance(e.value, str) for e in s.value.elts) else 'int')
                        if k is not None:
                            self.attr.setdefault(name, []).append(k)
        self.glob = {}
        for m in R.modules.values():
            for s in m.tree.body:
                if isinstance(s, (ast.Assign, ast.AnnAssign)) and s.value is not None:
                    for t in (s.targets if isinstance(s, ast.Assign) else [s.target]):
                        if isinstance(t, ast.Name):
                            k = ann_elem(s.annotation) if isinstance(s, ast.AnnAssign) else None
                            if k is None and (isinstance(s.value, (ast.Set, ast.SetComp)) or isinstance(s.value, ast.Call) and dotted(s.value.func) in ('set', 'frozenset')):
                                k = (True, '?')
                            if k:
                                self.glob[(m.name, t.id)] = k
        self.cache = {}

    def env(self, f):
        if id(f.node) in self.cache:
            return self.cache[id(f.node)]
        env = dict(self.env(f.outer)) if f.outer is not None else {}
        self.cache[id(f.node)] = env
        a = f.node.args
        for p in a.posonlyargs + a.args + a.kwonlyargs:
            k = ann_elem(p.annotation)
            env.pop(p.arg, None)
            if k:
                env[p.arg] = k
        for _ in range(3):
            for n in walk_fn(f.node):
                if isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name):
                    k = ann_elem(n.annotation)
                    if k:
                        env[n.target.id] = k
                elif isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                    k = self.kind(n.value, f)
                    if k and n.targets[0].id not in env:
                        env[n.targets[0].id] = k
                elif isinstance(n, ast.NamedExpr):
                    k = self.kind(n.value, f)
                    if k:
                        env.setdefault(n.target.id, k)
        # an empty (or unknown) collection that is only given numbers holds numbers
        for n in walk_fn(f.node):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ('append', 'add') and n.args and \
                    isinstance(n.func.value, ast.Name) and env.get(n.func.value.id, (0, ''))[1] == '?' and self.number(n.args[0], f):
                env[n.func.value.id] = (env[n.func.value.id][0], 'int')
        return env

    def number(self, e, f):
        if isinstance(e, ast.Constant):
            return isinstance(e.value, (int, float))
        if isinstance(e, ast.Call):
            d = dotted(e.func) or ''
            if d.split('.')[-1] in ('int', 'len', 'id', 'opFrac', 'float', 'Fraction', 'round', 'abs', 'ord'):
                return True
            nm = d.split('.')[-1]
            gs = self.R.by_name.get(nm, [])
            if len(gs) == 1 and gs[0].node.returns is not None:
                a = ast.unparse(gs[0].node.returns)
                return bool(STABLE.search(a)) and not UNSTABLE.search(a)
            return False
        if isinstance(e, ast.BinOp):
            return self.number(e.left, f) and self.number(e.right, f) or (isinstance(e.op, (ast.Sub, ast.FloorDiv, ast.Pow)) and (self.number(e.left, f) or self.number(e.right, f)))
        if isinstance(e, ast.UnaryOp):
            return isinstance(e.op, ast.Not) or self.number(e.operand, f)
        if isinstance(e, ast.Name):
            seen = False
            a = f.node.args
            for p in a.posonlyargs + a.args + a.kwonlyargs:
                if p.arg == e.id:
                    s = ast.unparse(p.annotation) if p.annotation is not None else ''
                    return bool(STABLE.search(s)) and not UNSTABLE.search(s)
            for n in walk_fn(f.node):
                if isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and n.target.id == e.id:
                    s = ast.unparse(n.annotation)
                    if not STABLE.search(s) or UNSTABLE.search(s):
                        return False
                    seen = True
                elif isinstance(n, (ast.For, ast.comprehension)) and isinstance(n.target, ast.Name) and n.target.id == e.id:
                    if isinstance(n.iter, ast.Call) and dotted(n.iter.func) == 'range':
                        seen = True
                    else:
                        k = self.kind(n.iter, f) if id(f.node) in self.cache else None
                        if not k or not STABLE.search(k[1]) or UNSTABLE.search(k[1]):
                            return False
                        seen = True
            return seen
        if isinstance(e, ast.Attribute):
            return False
        return False

    def kind(self, e, f):
        """(is a set, element annotation) or None when it is neither a known set nor a known sequence"""
        if isinstance(e, ast.Name):
            k = self.env(f).get(e.id)
            return k or self.glob.get((f.mod.name, e.id))
        if isinstance(e, ast.Attribute):
            ks = self.attr.get(e.attr, [])
            return ks[0] if ks and all(k is not None and k[0] == ks[0][0] for k in ks) else None
        if isinstance(e, (ast.Set, ast.SetComp)):
            if isinstance(e, ast.Set) and all(isinstance(x, ast.Constant) and isinstance(x.value, (int, float)) for x in e.elts):
                return True, 'int'
            return True, 'int' if isinstance(e, ast.SetComp) and self.number(e.elt, f) or \
                isinstance(e, ast.Set) and e.elts and all(self.number(x, f) for x in e.elts) else '?'
        if isinstance(e, (ast.List, ast.Tuple)):
            return (False, 'int') if e.elts and all(isinstance(x, ast.Constant) and isinstance(x.value, int) for x in e.elts) else (False, '?')
        if isinstance(e, ast.ListComp):
            c = e.elt
            return False, 'int' if self.number(c, f) else '?'
        if isinstance(e, ast.BinOp) and isinstance(e.op, (ast.Sub, ast.BitOr, ast.BitAnd, ast.BitXor)):
            a, b = self.kind(e.left, f), self.kind(e.right, f)
            if (a and a[0]) or (b and b[0] and not isinstance(e.op, ast.Sub)):
                return True, (a or b)[1]
        if isinstance(e, ast.IfExp):
            a, b = self.kind(e.body, f), self.kind(e.orelse, f)
            return a or b
        if isinstance(e, ast.Call):
            d = dotted(e.func) or ''
            if d in ('set', 'frozenset'):
                if not e.args:
                    return True, '?'
                a = e.args[0]
                if isinstance(a, ast.Call) and dotted(a.func) == 'range':
                    return True, 'int'
                k = self.kind(a, f)
                if isinstance(a, ast.GeneratorExp):
                    k = self.kind(ast.ListComp(elt=a.elt, generators=a.generators), f)
                    if k and k[1] == '?' and isinstance(a.elt, ast.Name) and len(a.generators) == 1 and isinstance(a.generators[0].target, ast.Name) \
                            and a.generators[0].target.id == a.elt.id:
                        k = self.kind(a.generators[0].iter, f) or k
                return True, k[1] if k else '?'
            if d == 'getattr' and len(e.args) == 3:
                k = self.kind(e.args[2], f)
                if k and k[0]:
                    return True, k[1]
            if isinstance(e.func, ast.Attribute):
                if e.func.attr in ('union', 'intersection', 'difference', 'symmetric_difference', 'copy'):
                    k = self.kind(e.func.value, f)
                    if k and k[0]:
                        return k
                gs = self.R.by_name.get(e.func.attr, [])
                if len(gs) == 1:
                    return ann_elem(gs[0].node.returns)
            elif isinstance(e.func, ast.Name):
                gs = self.R.by_name.get(e.func.id, [])
                if len(gs) == 1:
                    return ann_elem(gs[0].node.returns)
        return None

    def unordered(self, e, f):
        k = self.kind(e, f)
        if not k or not k[0]:
            return False
        el = k[1]
        if STABLE.search(el) and not UNSTABLE.search(el):
            return False
        return True


def set_order(rep):
    def go():
        R = repo()
        T = SetTypes(R)
        for f in R.functions:
            par = parents(f.node)
            for n in walk_fn(f.node):
                if not isinstance(n, ast.expr) or not isinstance(getattr(n, 'ctx', ast.Load()), ast.Load):
                    continue
                if not T.unordered(n, f):
                    continue
                why = leak(n, par, f, T)
                inst = f'set {ast.unparse(n)[:50]} in {f.qual}'
                if why:
                    rep.bad(inst, f'{f.where}:{n.lineno}', why)
                else:
                    rep.ok(inst)
    rep.family('set-order', 'no result depends on the order in which a set of names or objects is walked', go, 10)


def leak(e, par, f, T):
    p = par.get(e)
    if isinstance(p, ast.For) and p.iter is e:
        return loop_leak(p, f, T)
    if isinstance(p, ast.comprehension) and p.iter is e:
        c = par[p]
        if isinstance(c, (ast.SetComp, ast.DictComp)):
            return None
        return seq_leak(c, par, f, T, e)
    if isinstance(p, ast.Starred):
        c = par[p]
        if isinstance(c, (ast.Set,)):
            return None
        if isinstance(c, ast.Call) and (dotted(c.func) or '').split('.')[-1] in ('min', 'max', 'union', 'set', 'sum', 'print'):
            return None
        return f'*{ast.unparse(e)} puts the elements of a set in an order that differs from run to run'
    if isinstance(p, ast.Call):
        d = dotted(p.func) or ''
        if e in p.args:
            if d == 'sorted' or d in ('min', 'max'):
                return key_leak(p, d)
            if d in INSENSITIVE:
                return None
            if d in SEQUENCE:
                return seq_leak(p, par, f, T, e)
            if isinstance(p.func, ast.Attribute) and p.func.attr in ('join', 'extend', 'writelines'):
                if p.func.attr == 'extend' or p.func.attr == 'join' or p.func.attr == 'writelines':
                    return f'{ast.unparse(p)[:80]} depends on the order of a set'
        elif isinstance(p.func, ast.Attribute) and p.func.value is e:
            pass
    if isinstance(p, ast.Attribute) and p.attr == 'pop':
        c = par.get(p)
        if isinstance(c, ast.Call) and c.func is p and not c.args and not guarded_single(e, par):
            return f'{ast.unparse(c)} takes whichever element of the set comes first'
    if isinstance(p, ast.AugAssign) and p.value is e and isinstance(p.op, ast.Add):
        return f'{ast.unparse(p)[:80]} depends on the order of a set'
    if isinstance(p, ast.Assign) and p.value is e:
        t = p.targets[0]
        if isinstance(t, (ast.Tuple, ast.List)) and len(t.elts) > 1:
            return f'{ast.unparse(p)[:80]} unpacks a set'
    return None


def guarded_single(e, par):
    t = ast.unparse(e)
    n = par.get(e)
    while n is not None:
        if isinstance(n, (ast.If, ast.IfExp, ast.While)) and f'len({t})' in ast.unparse(n.test):
            return True
        n = par.get(n)
    return False


def key_leak(call, d):
    k = [x.value for x in call.keywords if x.arg == 'key']
    if not k:
        return None
    k = k[0]
    s = ast.unparse(k)
    if isinstance(k, ast.Attribute) and k.attr in ('index', '__getitem__'):
        return None
    if s in ('str', 'repr'):
        return None
    if isinstance(k, ast.Lambda):
        a = k.args.args[0].arg
        b = k.body
        if isinstance(b, ast.Name) or (isinstance(b, ast.Tuple) and any(isinstance(x, ast.Name) and x.id == a or
                                                                        isinstance(x, ast.Call) and dotted(x.func) in ('str', 'repr') for x in b.elts)):
            return None
        if isinstance(b, ast.Call) and isinstance(b.func, ast.Attribute) and b.func.attr == 'index':
            return None
    return f'{ast.unparse(call)[:90]}: elements with equal keys stay in the order of the set'


def seq_leak(c, par, f, T, e):
    """c is a sequence in set order"""
    p = par.get(c)
    if isinstance(p, ast.Call) and c in p.args:
        d = dotted(p.func) or ''
        if d in ('sorted', 'min', 'max'):
            return key_leak(p, d)
        if d in INSENSITIVE or isinstance(p.func, ast.Attribute) and p.func.attr in ('update', 'union', 'intersection', 'issubset', 'issuperset',
                                                                                     'isdisjoint', 'difference', 'difference_update'):
            return None
        if d in SEQUENCE:
            if d == 'next' and guarded_single(e, par):
                return None
            return seq_leak(p, par, f, T, e)
    if isinstance(p, ast.For) and p.iter is c:
        if isinstance(c, ast.Call) and dotted(c.func) in ('list', 'tuple', 'iter'):
            return loop_leak(p, f, T)
        return f'for ... in {ast.unparse(c)[:60]} pairs or numbers the elements of a set'
    if isinstance(p, ast.Compare) and c in p.comparators and all(isinstance(o, (ast.In, ast.NotIn)) for o in p.ops):
        return None
    if isinstance(p, (ast.Assign, ast.AnnAssign)) and p.value is c:
        t = p.targets[0] if isinstance(p, ast.Assign) else p.target
        if isinstance(t, ast.Name):
            uses = [x for x in walk_fn(f.node) if isinstance(x, ast.Name) and x.id == t.id and isinstance(x.ctx, ast.Load)]
            pr = par
            for u in uses:
                q = pr.get(u)
                if isinstance(q, ast.Compare) and u in q.comparators and all(isinstance(o, (ast.In, ast.NotIn)) for o in q.ops):
                    continue
                if isinstance(q, ast.Call) and u in q.args and dotted(q.func) in INSENSITIVE and not q.keywords:
                    continue
                if isinstance(q, ast.Attribute) and q.attr == 'sort':
                    return None
                if isinstance(q, ast.For) and q.iter is u and loop_leak(q, f, T) is None:
                    continue
                return f'{ast.unparse(p)[:80]} puts the elements of a set in an order that differs from run to run, and {t.id} is used at line {u.lineno}'
            return None
    if isinstance(p, (ast.If, ast.While)) or isinstance(p, ast.Expr):
        return None
    return f'{ast.unparse(c)[:80]} puts the elements of a set in an order that differs from run to run'


def loop_leak(loop, f, T):
    """an effect of the loop body that depends on the order of the iterations"""
    tv = {x.id for x in ast.walk(loop.target) if isinstance(x, ast.Name)}
    body_names = set()
    for s in loop.body:
        for x in ast.walk(s):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                body_names.add(x.id)
    inside = {id(x) for s in loop.body for x in ast.walk(s)}
    outside = {x.id for x in walk_fn(f.node) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) and id(x) not in inside}
    for s in loop.body:
        for n in ast.walk(s):
            if isinstance(n, (ast.Yield, ast.YieldFrom)):
                return f'yields the elements of a set in an order that differs from run to run'
            if isinstance(n, ast.AugAssign):
                if isinstance(n.target, ast.Name) and n.target.id not in outside:
                    continue
                if isinstance(n.value, ast.Constant) and isinstance(n.value.value, (int, float)):
                    continue
                if isinstance(n.op, (ast.BitOr, ast.BitAnd)):
                    continue
                if isinstance(n.op, (ast.Add,)) and isinstance(n.value, ast.Call) and dotted(n.value.func) in ('len', 'int', 'float'):
                    continue
                return f'{ast.unparse(n)[:80]} accumulates in the order of a set'
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        if t.id in outside and depends(n.value, tv | body_names) and not isinstance(n.value, ast.Constant):
                            return f'{ast.unparse(n)[:80]}: the last element of the set wins'
                    elif isinstance(t, ast.Subscript):
                        if not depends(t.slice, tv | body_names) and depends(n.value, tv | body_names):
                            return f'{ast.unparse(n)[:80]}: the last element of the set wins'
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute):
                a = n.func.attr
                if a in ('append', 'extend', 'insert', 'appendleft', 'write', 'start', 'end', 'coreInsert', 'coreAppend'):
                    b = n.func.value
                    if isinstance(b, ast.Name) and (b.id in tv or b.id in body_names and b.id not in outside):
                        continue
                    k = T.kind(b, f)
                    if k and k[0]:
                        continue
                    return f'{ast.unparse(n)[:80]} runs in the order of a set'
    return None


def depends(e, names):
    return any(isinstance(x, ast.Name) and x.id in names for x in ast.walk(e))


# ------------------------------------------------------------------------------------------------ clocks and dice
BANNED = re.compile(r'^(time\.(time|time_ns|monotonic|perf_counter|ctime|localtime|gmtime|strftime|asctime)|datetime\.(datetime\.)?(now|today|utcnow)|'
                    r'(datetime\.)?date\.today|random\.\w+|secrets\.\w+|os\.(urandom|getpid|environ\S*|getenv|listdir|scandir|times|getcwd|getlogin)|'
                    r'platform\.\w+|socket\.\w+|getpass\.\w+|locale\.\w+|tempfile\.mktemp|uuid\.uuid1|uuid1|glob\.\w+)$')


def sources(rep):
    def go():
        R = repo()
        for f in R.functions:
            imp = imports(f.mod)
            par = None
            bad = False
            if f.mod.name.endswith(('__main__', 'convertscore', 'generate')):
                continue
            for n in walk_fn(f.node):
                if isinstance(n, ast.Call):
                    d = dotted(n.func) or ''
                    r = d.split('.')[0]
                    full = imp.get(r, r) + d[len(r):]
                    if BANNED.match(full) or d == 'hash':
                        par = par or parents(f.node)
                        if only_logged(n, par):
                            continue
                        rep.bad(f'{d} in {f.qual}', f'{f.where}:{n.lineno}', f'{ast.unparse(n)[:80]} gives a different value in every run')
                        bad = True
                    for k in n.keywords:
                        if k.arg == 'key' and d.split('.')[-1] in ('sorted', 'sort', 'min', 'max') and re.search(r'\b(id|hash)\b(?!\w)\s*(\(|$)', ast.unparse(k.value)):
                            if ast.unparse(k.value) in ('id', 'hash') or re.search(r'\b(id|hash)\(', ast.unparse(k.value)):
                                rep.bad(f'order by address in {f.qual}', f'{f.where}:{n.lineno}', f'{ast.unparse(n)[:90]} sorts by memory address')
                                bad = True
            if not bad:
                rep.ok(f.qual)
    rep.family('run-specific-values', 'no clock, random number, hash or memory address decides a result', go, 500)


def only_logged(n, par):
    p = par.get(n)
    while p is not None:
        if isinstance(p, ast.Call) and dotted(p.func) == 'print' and any(k.arg == 'file' for k in p.keywords):
            return True
        if isinstance(p, ast.Call) and 'log' in (dotted(p.func) or '').lower():
            return True
        p = par.get(p)
    return False


# ------------------------------------------------------------------------------------------------ remembered token properties
TEXTS = ['4c', '4cL', '4r', '.', '*', '!', '=1', '=', '**kern', '**text', '*^', '*v', '*x', '*-', '*+', '*>A', '*>[A]', '4c 4e', '8cJ;', '!LO:N',
         '!!global', '*staff1', '*part1', '*group1', '2', '4.', '16qc', '4c;', '', 'ff']


def token_caches(rep):
    def go():
        R = repo()
        ip = new_ip(max_steps=200000)
        c = R.cls('HumdrumToken')
        props = [m for m in c.methods.values() if m.is_property and m.node.returns is not None and
                 ast.unparse(m.node.returns) in ('bool', 'str', 'int', 'list[str]')]
        # the properties that depend on nothing but the text and the data type of the token
        dt = {'text': '**kern'}
        model(ip, 'HumdrumToken', 'dataType', lambda ip_, a, k: dtok(ip_))

        def dtok(ip_):
            o = ip_.instantiate(ip_.cls('HumdrumToken'), ['**'], {})
            o.attrs['_text'] = dt['text']
            return o

        def value(m, text, first=None, kind='**kern', first_kind=None, via='ownerLine'):
            def thunk():
                dt['text'] = first_kind or kind
                t = ip.instantiate(ip.cls('HumdrumToken'), [first if first is not None else text], {})
                if first is not None or first_kind is not None:
                    ip.getattr(t, m.name)
                if first is not None:
                    ip.setattr(t, 'text', text)
                if first_kind is not None:
                    dt['text'] = kind
                    ip.setattr(t, via, None)
                return ip.getattr(t, m.name)
            return only(ip, thunk)

        def const(v):
            if v is None or v[0] != 'return':
                return UNKNOWN
            v = tuple(v[1]) if isinstance(v[1], list) else v[1]
            return v if isinstance(v, (bool, str, int, float, tuple)) else UNKNOWN
        n = 0
        for m in props:
            base = {}
            for tx in TEXTS:
                base[tx] = const(value(m, tx))
            vals = {}
            for tx, v in base.items():
                if v is not UNKNOWN:
                    vals.setdefault(v, []).append(tx)
            if len(vals) < 2:
                continue
            rep_of = [v[0] for v in vals.values()][:4]
            for a in rep_of:
                for b in rep_of:
                    if a == b:
                        continue
                    got = const(value(m, b, first=a))
                    inst = f'{m.name} of {b!r} after {a!r}'
                    if got is UNKNOWN:
                        rep.unsure(inst)
                    else:
                        rep.expect(got == base[b], inst, m.where, f'a token whose text changed from {a!r} to {b!r} still says {got!r}')
                    n += 1
        for m in props:
            for tx in ('4c', '4r', '.'):
                vs = {k: const(value(m, tx, kind=k)) for k in ('**kern', '**mens', '**recip', '**text')}
                for a in vs:
                    for b in vs:
                        if a != b and vs[a] is not UNKNOWN and vs[b] is not UNKNOWN and vs[a] != vs[b]:
                            for via in ('ownerLine', 'track'):
                                got = const(value(m, tx, kind=b, first_kind=a, via=via))
                                inst = f'{m.name} of {tx!r} as {b} after {a} (new {via})'
                                if got is UNKNOWN:
                                    rep.unsure(inst)
                                else:
                                    rep.expect(got == vs[b], inst, m.where,
                                               f'a token {tx!r} that moved from a {a} spine to a {b} spine still says {got!r}')
        rep.use(ip)
    rep.family('token-properties', 'what a token says about itself follows its text and its data type at all times', go, 60)
