"""Path-sensitive typestate (property simulation) of builder objects: which elements are open after each function.

The state at a program point is (tags opened here and still open, tags closed that the caller opened, facts about branch
conditions).  States with equal components are merged; callees are applied through summaries (with their constant return value), so
an element may be opened in one function and closed in another.  Only branches that matter to the builder are split."""
from __future__ import annotations
import ast
from .core import walk_fn, dotted, is_type_checking

MAXSTATES = 400
MAXCTX = 24


class St:
    __slots__ = ('push', 'pop', 'facts')

    def __init__(self, push=(), pop=(), facts=frozenset()):
        self.push, self.pop, self.facts = push, pop, facts

    def key(self):
        return (self.push, self.pop, self.facts)

    def __eq__(self, o):
        return self.key() == o.key()

    def __hash__(self):
        return hash(self.key())


class Out:
    """Outcome of one function: net effect and constant return value ('?' unknown)."""
    def __init__(self, push, pop, ret):
        self.push, self.pop, self.ret = push, pop, ret

    def __eq__(self, o):
        return (self.push, self.pop, self.ret) == (o.push, o.pop, o.ret)

    def __hash__(self):
        return hash((self.push, self.pop, self.ret))


class TooMany(Exception):
    pass


def names_in(text_or_node):
    n = ast.parse(text_or_node, mode='eval') if isinstance(text_or_node, str) else text_or_node
    return {x.id for x in ast.walk(n) if isinstance(x, ast.Name)}


class Typestate:
    def __init__(self, fns, ctor='TreeBuilder', dynamic=()):
        self.fns = fns
        self.ctor = ctor
        self.dynamic = set(dynamic)
        self.byname: dict[str, list] = {}
        for f in fns:
            self.byname.setdefault(f.name, []).append(f)
        self.tbnames: dict[int, set[str]] = {}
        self.summ: dict[int, list[Out] | None] = {}
        self.active: set[int] = set()
        self.ctxsumm: dict = {}
        self.nctx: dict = {}
        self._interest: dict = {}
        self._locals: dict = {}
        self.errors: list[tuple] = []
        self.events = 0
        self.undecided: list[tuple] = []
        self._atoms: dict[str, frozenset] = {}
        self._find_tb()
        self.attr_stores = {}
        for f in fns:
            self.attr_stores.setdefault(f.name, set()).update(
                n.attr for n in walk_fn(f.node) if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store))

    # ------------------------------------------------ which names hold the builder
    def _find_tb(self):
        for f in self.fns:
            s = set()
            a = f.node.args
            for p in a.posonlyargs + a.args + a.kwonlyargs:
                if p.annotation is not None and self.ctor in ast.unparse(p.annotation):
                    s.add(p.arg)
            for n in walk_fn(f.node):
                v = t = None
                if isinstance(n, ast.Assign) and len(n.targets) == 1:
                    v, t = n.value, n.targets[0]
                elif isinstance(n, ast.AnnAssign):
                    v, t = n.value, n.target
                if isinstance(t, ast.Name) and isinstance(v, ast.Call) and (dotted(v.func) or '').split('.')[-1] == self.ctor:
                    s.add(t.id)
            self.tbnames[id(f)] = s
        changed = True
        while changed:
            changed = False
            for f in self.fns:
                tb = self.tbnames[id(f)]
                if not tb:
                    continue
                for n in walk_fn(f.node):
                    if isinstance(n, ast.Call):
                        for g in self.callees(n, f):
                            for i, arg in enumerate(n.args):
                                if isinstance(arg, ast.Name) and arg.id in tb:
                                    ps = g.params()
                                    if g.cls is not None and not g.is_static and g.outer is None:
                                        ps = ps[1:]
                                    if i < len(ps) and ps[i] not in self.tbnames[id(g)]:
                                        self.tbnames[id(g)].add(ps[i])
                                        changed = True
                            for k in n.keywords:
                                if isinstance(k.value, ast.Name) and k.value.id in tb and k.arg in g.params() \
                                        and k.arg not in self.tbnames[id(g)]:
                                    self.tbnames[id(g)].add(k.arg)
                                    changed = True

    def callees(self, call, f):
        npos = len(call.args)
        out = []
        for g in self._callees(call, f):
            a = g.node.args
            n = len(a.posonlyargs + a.args)
            bound = g.cls is not None and not g.is_static and g.outer is None
            n -= 1 if bound else 0
            if npos > n and a.vararg is None:
                continue
            need = n - len(a.defaults)
            if npos + len(call.keywords) < need and not any(k.arg is None for k in call.keywords):
                continue
            out.append(g)
        return out

    def _callees(self, call, f):
        fu = call.func
        if isinstance(fu, ast.Name):
            return [g for g in self.byname.get(fu.id, []) if g.cls is None or g.outer is not None]
        if not isinstance(fu, ast.Attribute):
            return []
        cands = [g for g in self.byname.get(fu.attr, []) if g.cls is not None and g.outer is None]
        if isinstance(fu.value, ast.Name):
            if fu.value.id in ('self', 'cls') and f.cls is not None:
                own = [g for g in cands if g.cls.name == f.cls.name]
                return own or cands
            own = [g for g in cands if g.cls.name == fu.value.id]
            if own:
                return own
        if isinstance(fu.value, ast.Call) and dotted(fu.value.func) == 'super':
            return [g for g in cands if f.cls is None or g.cls.name != f.cls.name]
        return cands

    def passes_tb(self, call, tb):
        return any(isinstance(a, ast.Name) and a.id in tb for a in call.args) or any(
            isinstance(k.value, ast.Name) and k.value.id in tb for k in call.keywords)

    # ------------------------------------------------ relevance
    def relevant_node(self, n, f, tb, tracked):
        for x in [n] + list(walk_fn(n)):
            if isinstance(x, ast.Call):
                if isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Name) and x.func.value.id in tb \
                        and x.func.attr in ('start', 'end', 'close'):
                    return True
                if self.passes_tb(x, tb):
                    return True
            if isinstance(x, (ast.Return, ast.Break, ast.Continue, ast.Raise)):
                return True
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and x.id in tracked:
                return True
            if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and ast.unparse(x) in tracked:
                return True
        return False

    def _has_event(self, n, f, tb):
        for x in [n] + list(walk_fn(n)):
            if isinstance(x, ast.Call):
                if isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Name) and x.func.value.id in tb \
                        and x.func.attr in ('start', 'end'):
                    return True
                if self.passes_tb(x, tb) and any(
                        (o.push or o.pop) for g in self.callees(x, f) for o in (self.summary(g) or [])):
                    return True
        return False

    # ------------------------------------------------ conditions
    def ev(self, c, facts):
        if isinstance(c, ast.Constant):
            return bool(c.value)
        if isinstance(c, ast.UnaryOp) and isinstance(c.op, ast.Not):
            v = self.ev(c.operand, facts)
            return None if v is None else not v
        if isinstance(c, ast.BoolOp):
            vs = [self.ev(v, facts) for v in c.values]
            if isinstance(c.op, ast.And):
                return False if False in vs else (True if all(v is True for v in vs) else None)
            return True if True in vs else (False if all(v is False for v in vs) else None)
        k, pos = self.atom(c)
        for (a, v) in facts:
            if a == k:
                return v if pos else not v
        return None

    def atom(self, c):
        if isinstance(c, ast.Compare) and len(c.ops) == 1:
            o = c.ops[0]
            flip = {ast.IsNot: ast.Is, ast.NotEq: ast.Eq, ast.NotIn: ast.In}.get(type(o))
            if flip:
                c2 = ast.Compare(c.left, [flip()], c.comparators)
                return ast.unparse(c2), False
        if isinstance(c, ast.Call) and dotted(c.func) == 'bool' and len(c.args) == 1:
            return self.atom(c.args[0])
        return ast.unparse(c), True

    def assume(self, c, val, facts):
        """-> new facts, or None when contradictory"""
        if isinstance(c, ast.Constant):
            return facts if bool(c.value) == val else None
        if isinstance(c, ast.UnaryOp) and isinstance(c.op, ast.Not):
            return self.assume(c.operand, not val, facts)
        if isinstance(c, ast.BoolOp):
            isand = isinstance(c.op, ast.And)
            if val == isand:
                for v in c.values:
                    facts = self.assume(v, val, facts)
                    if facts is None:
                        return None
                return facts
            vs = [self.ev(v, facts) for v in c.values]
            if any(v == (not isand) for v in vs):
                return facts
            unk = [v for v, e in zip(c.values, vs) if e is None]
            if not unk:
                return None
            if len(unk) == 1:
                return self.assume(unk[0], val, facts)
            return facts
        k, pos = self.atom(c)
        v = val if pos else not val
        for (a, w) in facts:
            if a == k and w != v:
                return None
        new = set(facts)
        new.add((k, v))
        if k.endswith(' is None'):
            base = k[:-8]
            if v:
                if (base, True) in new:
                    return None
                new.add((base, False))
        elif v:
            kk = k + ' is None'
            if (kk, True) in new:
                return None
            new.add((kk, False))
        return frozenset(new)

    def kill(self, facts, text):
        base = text.split('.')[0]
        out = set()
        for a, v in facts:
            ns = self._atoms.get(a)
            if ns is None:
                try:
                    tree = ast.parse(a, mode='eval')
                    ns = frozenset(ast.unparse(x) for x in ast.walk(tree) if isinstance(x, (ast.Name, ast.Attribute)))
                except SyntaxError:
                    ns = frozenset([a])
                self._atoms[a] = ns
            if text in ns or (text == base and any(n == base or n.startswith(base + '.') for n in ns)):
                continue
            out.add((a, v))
        return frozenset(out)

    def setconst(self, facts, text, val):
        facts = set(self.kill(facts, text))
        facts.add((text, bool(val)))
        facts.add((text + ' is None', val is None))
        return frozenset(facts)

    # ------------------------------------------------ functions
    def summary(self, f, entry=frozenset()):
        """The function's outcomes when these facts about its parameters hold on entry."""
        k = (id(f), entry)
        if k in self.ctxsumm:
            return self.ctxsumm[k]
        if entry and self.nctx.get(id(f), 0) >= MAXCTX:
            return self.summary(f)
        if id(f) in self.active:
            return [Out((), (), '?')]     # recursion: assumed balanced, verified when the cycle closes
        self.active.add(id(f))
        self.nctx[id(f)] = self.nctx.get(id(f), 0) + 1
        try:
            outs = self._analyse(f, entry)
        except TooMany:
            self.undecided.append((f, 'more paths than the bound'))
            outs = None
        self.active.discard(id(f))
        self.ctxsumm[k] = outs
        if id(f) in self.summ and (outs is None or self.summ[id(f)] is None):
            self.summ[id(f)] = None
        else:
            self.summ[id(f)] = list(set(self.summ.get(id(f)) or []) | set(outs or [])) if outs is not None else None
        return outs

    def interest(self, g):
        """names and attributes the function tests or returns"""
        if id(g) not in self._interest:
            t = set()
            for n in walk_fn(g.node):
                tests = []
                if isinstance(n, (ast.If, ast.While, ast.IfExp)):
                    tests.append(n.test)
                elif isinstance(n, ast.Return) and n.value is not None:
                    tests.append(n.value)
                elif isinstance(n, ast.Call):
                    tests += n.args + [k.value for k in n.keywords]
                elif isinstance(n, (ast.Assign, ast.AnnAssign)) and n.value is not None:
                    tests.append(n.value)
                for e in tests:
                    t |= {ast.unparse(x) for x in ast.walk(e) if isinstance(x, (ast.Name, ast.Attribute))}
            self._interest[id(g)] = t
        return self._interest[id(g)]

    def context(self, call, g, facts, f):
        """the caller's facts, said in terms of the callee's parameters"""
        a = g.node.args
        ps = [p.arg for p in a.posonlyargs + a.args]
        bound = g.cls is not None and not g.is_static and g.outer is None
        ren = {}
        if bound and ps:
            if isinstance(call.func, ast.Attribute) and isinstance(call.func.value, ast.Name) \
                    and call.func.value.id in ('self', 'cls'):
                ren[call.func.value.id] = ps[0]
            ps = ps[1:]
        given = dict(zip(ps, [x for x in call.args if not isinstance(x, ast.Starred)]))
        if any(isinstance(x, ast.Starred) for x in call.args):
            given = {}
        for k in call.keywords:
            if k.arg:
                given[k.arg] = k.value
        if not any(k.arg is None for k in call.keywords) and not any(isinstance(x, ast.Starred) for x in call.args):
            pos = [p.arg for p in a.posonlyargs + a.args]
            for p, dflt in list(zip(pos[len(pos) - len(a.defaults):], a.defaults)) + list(
                    zip([p.arg for p in a.kwonlyargs], a.kw_defaults)):
                if p not in given and isinstance(dflt, ast.Constant):
                    given[p] = dflt
        want = self.interest(g)
        out = set()
        for p, e in given.items():
            if p not in want:
                continue
            if isinstance(e, ast.Constant):
                out |= {(p, bool(e.value)), (p + ' is None', e.value is None)}
                continue
            if isinstance(e, ast.Name):
                ren.setdefault(e.id, p)
            v = self.ev(e, facts)
            if v is not None:
                out.add((p, v))
            n = self.ev(ast.Compare(e, [ast.Is()], [ast.Constant(None)]), facts)
            if n is not None:
                out.add((p + ' is None', n))
        loc = self.locals_of(f)
        for atom, v in facts:
            try:
                tree = ast.parse(atom, mode='eval').body
            except SyntaxError:
                continue
            ns = names_in(tree)
            if not ns or not (ns & set(ren)) or any(n not in ren and n in loc for n in ns):
                continue
            for x in ast.walk(tree):
                if isinstance(x, ast.Name) and x.id in ren:
                    x.id = ren[x.id]
            t = {ast.unparse(x) for x in ast.walk(tree) if isinstance(x, (ast.Name, ast.Attribute))}
            vals = {y for y in t if not any(z != y and z.startswith(y + '.') for z in t)}
            if any(y in want for y in vals if y.split('.')[0] in ren.values()):
                out.add((ast.unparse(tree), v))
        return frozenset(out)

    def locals_of(self, f):
        if id(f) not in self._locals:
            a = f.node.args
            s = {p.arg for p in a.posonlyargs + a.args + a.kwonlyargs}
            s |= {n.id for n in walk_fn(f.node) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
            self._locals[id(f)] = s
        return self._locals[id(f)]

    def _analyse(self, f, entry=frozenset()):
        tb = self.tbnames[id(f)]
        tracked = set()
        # variables and attributes used in conditions of branches that contain builder events (or jumps)
        for n in walk_fn(f.node):
            if isinstance(n, (ast.If, ast.While)):
                for x in ast.walk(n.test):
                    if isinstance(x, (ast.Name, ast.Attribute)):
                        tracked.add(ast.unparse(x))
            if isinstance(n, ast.Return) and n.value is not None:
                for x in ast.walk(n.value):
                    if isinstance(x, ast.Name):
                        tracked.add(x.id)
        ctx = dict(f=f, tb=tb, tracked=tracked, rets=set())
        end, brk, cont = self.block(f.node.body, {St((), (), entry)}, ctx)
        outs = {Out(s.push, s.pop, None) for s in end} | {Out(s.push, s.pop, r) for s, r in ctx['rets']}
        return list(outs)

    def block(self, stmts, states, ctx):
        brk, cont = set(), set()
        for s in stmts:
            if not states:
                break
            if len(states) > MAXSTATES:
                states = self._merge(states)
            states, b, c = self.stmt(s, states, ctx)
            brk |= b
            cont |= c
        return states, brk, cont

    def _merge(self, states):
        """Too many states: drop facts, keep effects."""
        by = {}
        for s in states:
            k = (s.push, s.pop)
            by[k] = by[k] & s.facts if k in by else s.facts
        if len(by) > MAXSTATES:
            raise TooMany()
        return {St(a, b, f) for (a, b), f in by.items()}

    def expr(self, e, states, ctx):
        """builder events inside an expression, in evaluation order; -> {(state, constant value or '?')} for a single call"""
        f, tb = ctx['f'], ctx['tb']
        calls = [x for x in [e] + list(walk_fn(e)) if isinstance(x, ast.Call)]
        calls.sort(key=lambda x: (x.end_lineno, x.end_col_offset))
        ret = None
        for c in calls:
            fu = c.func
            if isinstance(fu, ast.Attribute) and isinstance(fu.value, ast.Name) and fu.value.id in tb:
                if fu.attr in ('start', 'end') and c.args:
                    tag = self.tag(c.args[0])
                    if tag in self.dynamic:
                        continue
                    self.events += 1
                    new = set()
                    for s in states:
                        if fu.attr == 'start':
                            new.add(St(s.push + (tag,), s.pop, s.facts))
                        else:
                            new.add(self.close(s, tag, c, ctx))
                    states = new
                elif fu.attr == 'close':
                    for s in states:
                        if s.push:
                            self.err(ctx, c, f'closing the document with <{s.push[-1]}> still open', s)
                continue
            gs = self.callees(c, f)
            if self.passes_tb(c, tb) and gs:
                stores = set()
                for g in gs:
                    stores |= self.attr_stores.get(g.name, set())
                new = set()
                rr = {}
                for s in states:
                    facts = s.facts
                    outs = set()
                    for g in gs:
                        su = self.summary(g, self.context(c, g, facts, f))
                        if su is None:
                            su = [Out((), (), '?')]
                        outs |= set(su)
                    for a in stores:
                        facts = frozenset(x for x in facts if ('.' + a) not in x[0])
                    for o in outs:
                        t = St(s.push, s.pop, facts)
                        for tag in o.pop:
                            t = self.close(t, tag, c, ctx, g=gs[0])
                        t = St(t.push + o.push, t.pop, t.facts)
                        new.add(t)
                        rr.setdefault(t, set()).add(o.ret)
                if c is e:
                    ret = rr
                states = new
        return states, ret

    def retval(self, e, facts):
        if isinstance(e, ast.Constant):
            return e.value if isinstance(e.value, (bool, type(None))) else '?'
        if self.ev(ast.Compare(e, [ast.Is()], [ast.Constant(None)]), facts) is True:
            return None
        v = self.ev(e, facts)
        return '?' if v is None else v

    def tag(self, a):
        if isinstance(a, ast.Constant) and isinstance(a.value, str):
            return a.value
        return '$' + ast.unparse(a)

    def close(self, s, tag, node, ctx, g=None):
        if s.push:
            top = s.push[-1]
            if top != tag and not (top.startswith('$') or tag.startswith('$')):
                self.err(ctx, node, f'</{tag}> is written while <{top}> is open', s)
            elif top.startswith('$') and tag.startswith('$') and top != tag and g is None:
                pass
            return St(s.push[:-1], s.pop, s.facts)
        return St(s.push, s.pop + (tag,), s.facts)

    def err(self, ctx, node, msg, s):
        f = ctx['f']
        self.errors.append((f, node.lineno, msg, sorted(f'{a}={v}' for a, v in s.facts if not a.endswith(' is None'))[:6]))

    def assign(self, target, value, states, ret, ctx):
        if isinstance(target, (ast.Tuple, ast.List)) and value is not None and not any(isinstance(t, ast.Starred) for t in target.elts):
            if isinstance(value, (ast.Tuple, ast.List)) and len(value.elts) == len(target.elts) \
                    and not ({ast.unparse(t) for t in target.elts} & {x for e in value.elts for x in names_in(e)}):
                for t, e in zip(target.elts, value.elts):
                    states = self.assign(t, e, states, None, ctx)
                return states
            if ret is not None:
                new = set()
                for s in states:
                    for r in ret.get(s, {'?'}):
                        facts = s.facts
                        for i, t in enumerate(target.elts):
                            q = r[i] if isinstance(r, tuple) and len(r) == len(target.elts) else '?'
                            text = ast.unparse(t)
                            if q == '?' or text not in ctx['tracked']:
                                facts = self.kill(facts, text)
                            else:
                                facts = self.setconst(facts, text, q)
                        new.add(St(s.push, s.pop, facts))
                return new
        for t in ([target] if not isinstance(target, (ast.Tuple, ast.List)) else target.elts):
            if not isinstance(t, (ast.Name, ast.Attribute)):
                continue
            text = ast.unparse(t)
            if isinstance(target, (ast.Tuple, ast.List)) or value is None or text not in ctx['tracked']:
                states = {St(s.push, s.pop, self.kill(s.facts, text)) for s in states}
                continue
            new = set()
            for s in states:
                if isinstance(value, ast.Constant):
                    new.add(St(s.push, s.pop, self.setconst(s.facts, text, value.value)))
                elif isinstance(value, (ast.List, ast.Dict, ast.Tuple, ast.JoinedStr)) :
                    k = self.kill(s.facts, text)
                    new.add(St(s.push, s.pop, frozenset(k | {(text + ' is None', False)})))
                elif ret is not None and s in ret:
                    for r in ret[s]:
                        if r == '?' or isinstance(r, tuple):
                            new.add(St(s.push, s.pop, self.kill(s.facts, text)))
                        else:
                            new.add(St(s.push, s.pop, self.setconst(s.facts, text, r)))
                elif isinstance(value, (ast.Name, ast.BoolOp, ast.Compare, ast.UnaryOp)) and text not in names_in(value) or (
                        isinstance(value, ast.Call) and dotted(value.func) in ('bool', 'hasattr', 'isinstance')
                        and text not in names_in(value)):
                    for v in (True, False):
                        fa = self.assume(value, v, s.facts)
                        if fa is None:
                            continue
                        fa = self.kill(fa, text)
                        fa = self.assume(ast.parse(text, mode='eval').body, v, fa)
                        if fa is not None:
                            new.add(St(s.push, s.pop, fa))
                else:
                    new.add(St(s.push, s.pop, self.kill(s.facts, text)))
            states = new
        return states

    def stmt(self, s, states, ctx):
        E = set()
        f, tb, tracked = ctx['f'], ctx['tb'], ctx['tracked']
        if isinstance(s, (ast.FunctionDef, ast.ClassDef, ast.Pass, ast.Import, ast.ImportFrom, ast.Global, ast.Nonlocal, ast.Assert)):
            return states, E, E
        if isinstance(s, ast.Expr):
            return self.expr(s.value, states, ctx)[0], E, E
        if isinstance(s, ast.Assign):
            states, ret = self.expr(s.value, states, ctx)
            for t in s.targets:
                states = self.assign(t, s.value, states, ret, ctx)
            return states, E, E
        if isinstance(s, ast.AnnAssign):
            if s.value is None:
                return states, E, E
            states, ret = self.expr(s.value, states, ctx)
            return self.assign(s.target, s.value, states, ret, ctx), E, E
        if isinstance(s, ast.AugAssign):
            states, ret = self.expr(s.value, states, ctx)
            return self.assign(s.target, None, states, None, ctx), E, E
        if isinstance(s, ast.Return):
            ret = None
            if s.value is not None:
                states, ret = self.expr(s.value, states, ctx)
            for st in states:
                r = '?'
                if s.value is None:
                    r = None
                elif isinstance(s.value, ast.Constant):
                    r = s.value.value if isinstance(s.value.value, (bool, type(None))) else '?'
                elif ret is not None and st in ret:
                    for q in ret[st]:
                        ctx['rets'].add((St(st.push, st.pop), q))
                    continue
                elif isinstance(s.value, ast.Tuple):
                    r = tuple(self.retval(e, st.facts) for e in s.value.elts)
                else:
                    r = self.retval(s.value, st.facts)
                ctx['rets'].add((St(st.push, st.pop), r))
            return E, E, E
        if isinstance(s, ast.Raise):
            return E, E, E
        if isinstance(s, ast.Break):
            return E, set(states), E
        if isinstance(s, ast.Continue):
            return E, E, set(states)
        if isinstance(s, ast.If):
            if is_type_checking(s.test):
                return states, E, E
            states, _ = self.expr(s.test, states, ctx)
            if not self.relevant_node(s, f, tb, tracked):
                return states, E, E
            out, brk, cont = set(), set(), set()
            T, F = set(), set()
            for st in states:
                v = self.ev(s.test, st.facts)
                if v is not False:
                    fa = self.assume(s.test, True, st.facts)
                    if fa is not None:
                        T.add(St(st.push, st.pop, fa))
                if v is not True:
                    fa = self.assume(s.test, False, st.facts)
                    if fa is not None:
                        F.add(St(st.push, st.pop, fa))
            for body, ss in ((s.body, T), (s.orelse, F)):
                o, b, c = self.block(body, ss, ctx)
                out |= o
                brk |= b
                cont |= c
            return out, brk, cont
        if isinstance(s, (ast.For, ast.AsyncFor, ast.While)):
            isfor = not isinstance(s, ast.While)
            if isfor:
                states, _ = self.expr(s.iter, states, ctx)
            if not self.relevant_node(s, f, tb, tracked):
                return states, E, E
            seen, exits, work = set(), set(), set(states)
            brks = set()
            for it in range(4):
                work = {w for w in work if w not in seen}
                if not work:
                    break
                seen |= work
                if len(seen) > MAXSTATES:
                    work = self._merge(work)
                ent = set()
                for st in work:
                    if isfor:
                        exits.add(st)
                        ent.add(st)
                    else:
                        v = self.ev(s.test, st.facts)
                        if v is not True:
                            fa = self.assume(s.test, False, st.facts)
                            if fa is not None:
                                exits.add(St(st.push, st.pop, fa))
                        if v is not False:
                            fa = self.assume(s.test, True, st.facts)
                            if fa is not None:
                                ent.add(St(st.push, st.pop, fa))
                if isfor:
                    ent = self.assign(s.target, None, ent, None, ctx)
                o, b, c = self.block(s.body, ent, ctx)
                brks |= b
                work = o | c
            if isfor:
                exits |= work
            if s.orelse:
                exits, b2, c2 = self.block(s.orelse, exits, ctx)
                return exits | brks, b2, c2
            return exits | brks, E, E
        if isinstance(s, ast.Try):
            allst = set(states)
            cur = states
            brk, cont = set(), set()
            for x in s.body:
                cur, b, c = self.stmt(x, cur, ctx)
                brk |= b
                cont |= c
                allst |= cur
            out = set()
            o, b, c = self.block(s.orelse, cur, ctx)
            out |= o
            brk |= b
            cont |= c
            for h in s.handlers:
                o, b, c = self.block(h.body, allst, ctx)
                out |= o
                brk |= b
                cont |= c
            if s.finalbody:
                out, b, c = self.block(s.finalbody, out, ctx)
                brk |= b
                cont |= c
            return out, brk, cont
        if isinstance(s, ast.With):
            for i in s.items:
                states, _ = self.expr(i.context_expr, states, ctx)
            return self.block(s.body, states, ctx)
        if isinstance(s, ast.Match):
            out, brk, cont = set(states), set(), set()
            for c_ in s.cases:
                o, b, c = self.block(c_.body, states, ctx)
                out |= o
                brk |= b
                cont |= c
            return out, brk, cont
        if isinstance(s, ast.Delete):
            return states, E, E
        return states, E, E

    # ------------------------------------------------ whole-package verdicts
    def roots(self):
        """Functions that handle the builder and that nobody in the package calls with it (or whose name is taken as a value)."""
        called, taken = set(), set()
        for f in self.fns:
            tb = self.tbnames[id(f)]
            callee_nodes = set()
            for n in walk_fn(f.node):
                if isinstance(n, ast.Call):
                    callee_nodes.add(id(n.func))
                    if tb and self.passes_tb(n, tb):
                        for g in self.callees(n, f):
                            called.add(id(g))
        mods = {f.mod.name: f.mod for f in self.fns}
        for m in mods.values():
            funcs = {id(n.func) for n in ast.walk(m.tree) if isinstance(n, ast.Call)}
            for n in ast.walk(m.tree):
                if isinstance(n, (ast.Attribute, ast.Name)) and id(n) not in funcs and isinstance(n.ctx, ast.Load):
                    taken.add(n.attr if isinstance(n, ast.Attribute) else n.id)
        return [f for f in self.fns if self.tbnames[id(f)] and (id(f) not in called or f.name in taken)]
