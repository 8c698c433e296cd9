"""Loop progress: can control come back to a loop head without any of the loop's carried state having changed?

A loop's state is what its exit conditions read (for 'while cond' the condition, for 'while True' the conditions that guard
its break/return/raise statements), closed under the assignments inside the loop; carried state are those of them that an
iteration computes from a previous one (a cycle of assignments) or that are changed in place.  A forward dataflow over the
loop body then finds every syntactic path from the head back to the head on which nothing of the carried state changes."""
from __future__ import annotations
import ast

PURE = {'get', 'items', 'keys', 'values', 'index', 'count', 'copy', 'startswith', 'endswith', 'strip', 'split', 'find', 'lower',
        'upper', 'replace', 'join', 'format', 'isdigit', 'isalpha', 'isspace', 'getElementsByClass'}


def base(n):
    """Access-path key of an expression: a name, or 'self.attr'."""
    while True:
        if isinstance(n, ast.Name):
            return n.id
        if isinstance(n, ast.Attribute):
            if isinstance(n.value, ast.Name) and n.value.id in ('self', 'cls'):
                return f'{n.value.id}.{n.attr}'
            n = n.value
        elif isinstance(n, (ast.Subscript, ast.Starred, ast.Await)):
            n = n.value
        elif isinstance(n, ast.Call):
            n = n.func
        else:
            return None


def reads(e):
    """Keys an expression reads."""
    out = set()

    def go(n):
        if isinstance(n, ast.Attribute):
            if isinstance(n.value, ast.Name) and n.value.id in ('self', 'cls'):
                out.add(f'{n.value.id}.{n.attr}')
                return
            go(n.value)
            return
        if isinstance(n, ast.Name):
            out.add(n.id)
            return
        if isinstance(n, ast.Call):
            f = n.func
            if isinstance(f, ast.Name):
                pass
            else:
                go(f)
            for a in list(n.args) + [k.value for k in n.keywords]:
                go(a)
            return
        for c in ast.iter_child_nodes(n):
            if not isinstance(c, (ast.Lambda,)):
                go(c)
    if e is not None:
        go(e)
    return out


def targets(t):
    if isinstance(t, (ast.Tuple, ast.List)):
        out = []
        for x in t.elts:
            out += targets(x)
        return out
    if isinstance(t, ast.Starred):
        return targets(t.value)
    return [t]


class Loop:
    def __init__(self, fn, node, prog=None):
        self.fn = fn
        self.prog = prog
        self.globals_ = set(fn.mod.bindings)
        self.selfcalls = []
        self.opaque = False
        self.nested = {x.name for x in ast.walk(fn.node) if isinstance(x, (ast.FunctionDef, ast.ClassDef)) and x is not fn.node}
        o = fn.outer
        while o is not None:
            self.nested |= {x.name for x in ast.walk(o.node) if isinstance(x, ast.FunctionDef)}
            o = o.outer
        self.node = node
        self.infinite = isinstance(node.test, ast.Constant) and bool(node.test.value)
        self.assigns = []           # (target key, rhs keys, stmt, inplace?)
        self._collect(node.body)
        self._alias()
        self.assigns = [a for a in self.assigns if a[0] not in self.globals_]
        frozen = immutable_names(fn.node)
        grown = self._length_bounds()
        self.assigns = [a for a in self.assigns if not (
            a[3] and a[0] in grown and isinstance(a[2], ast.Call) and isinstance(a[2].func, ast.Attribute)
            and a[2].func.attr in ('append', 'insert', 'extend', 'appendleft'))]
        if not self.infinite:
            ident = identity_only(node.test)
            self.assigns = [a for a in self.assigns if not (a[3] and a[0] in ident and not isinstance(a[2], ast.Delete))]
        self.assigns = [a for a in self.assigns if not (a[3] and a[0] in frozen and isinstance(a[2], ast.Call))]
        self.state = self._state()
        self.carried = self._carried()

    # every assignment in the body (nested loops included)
    def _collect(self, body):
        for s in body:
            for n in self.walk(s):
                if isinstance(n, ast.Assign):
                    for t in n.targets:
                        tt = targets(t)
                        if isinstance(t, (ast.Tuple, ast.List)) and isinstance(n.value, (ast.Tuple, ast.List)) \
                                and len(n.value.elts) == len(t.elts):
                            for x, v in zip(t.elts, n.value.elts):
                                self._add(x, reads(v), n)
                        else:
                            for x in tt:
                                self._add(x, reads(n.value), n)
                elif isinstance(n, ast.AugAssign):
                    self._add(n.target, reads(n.value) | {base(n.target)}, n)
                elif isinstance(n, ast.AnnAssign) and n.value is not None:
                    self._add(n.target, reads(n.value), n)
                elif isinstance(n, ast.NamedExpr):
                    self._add(n.target, reads(n.value), n)
                elif isinstance(n, (ast.For, ast.comprehension)):
                    for x in targets(n.target):
                        self._add(x, reads(n.iter), n)
                elif isinstance(n, ast.withitem) and n.optional_vars is not None:
                    for x in targets(n.optional_vars):
                        self._add(x, reads(n.context_expr), n)
                elif isinstance(n, ast.Delete):
                    for t in n.targets:
                        self.assigns.append((base(t), {base(t)}, n, True))
                elif isinstance(n, ast.Call):
                    f = n.func
                    if isinstance(f, ast.Attribute) and f.attr not in PURE:
                        b = base(f.value)
                        if b is not None:
                            self.assigns.append((b, {b}, n, True))
                    if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id == 'self':
                        self.selfcalls.append(n)
                    if isinstance(f, ast.Name) and f.id in self.nested:
                        self.opaque = True
                    for pos, a in enumerate(list(n.args) + [k.value for k in n.keywords]):
                        b = base(a) if isinstance(a, (ast.Name, ast.Attribute)) else None
                        if b is None:
                            continue
                        which = pos if pos < len(n.args) else n.keywords[pos - len(n.args)].arg
                        if self.prog is None or self.prog.changes(n, which):
                            self.assigns.append((b, {b}, n, True))

    def _length_bounds(self):
        """Collections whose length bounds a counter from above: growing them is no progress."""
        out = set()

        def lens(e):
            return {base(c.args[0]) for c in ast.walk(e) if isinstance(c, ast.Call) and isinstance(c.func, ast.Name)
                    and c.func.id == 'len' and len(c.args) == 1} - {None}
        tests = [(self.node.test, True)] if not self.infinite else [
            (n.test, False) for s in self.node.body for n in self.walk(s)
            if isinstance(n, ast.If) and any(isinstance(x, (ast.Break, ast.Return)) for x in n.body)]
        for t, stay in tests:
            for c in ast.walk(t):
                if isinstance(c, ast.Compare) and len(c.ops) == 1:
                    lt = isinstance(c.ops[0], (ast.Lt, ast.LtE))
                    gt = isinstance(c.ops[0], (ast.Gt, ast.GtE))
                    if (lt and stay) or (gt and not stay):
                        out |= lens(c.comparators[0]) - lens(c.left)
                    if (gt and stay) or (lt and not stay):
                        out |= lens(c.left) - lens(c.comparators[0])
        return out

    def _alias(self):
        """Changing an element in place changes the collection it was taken from."""
        src = {}
        for s in self.node.body:
            for n in self.walk(s):
                if isinstance(n, ast.For):
                    for x in targets(n.target):
                        if isinstance(x, ast.Name) and isinstance(n.iter, (ast.Name, ast.Attribute, ast.Subscript)):
                            b = base(n.iter)
                            if b is not None:
                                src.setdefault(x.id, set()).add((b, id(n)))
        for b, rhs, n, inplace in list(self.assigns):
            if inplace and b in src:
                for c, _ in src[b]:
                    self.assigns.append((c, {c}, n, True))

    @staticmethod
    def walk(s):
        todo = [s]
        while todo:
            n = todo.pop()
            yield n
            if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                continue
            todo.extend(ast.iter_child_nodes(n))

    def _add(self, t, rhs, n):
        b = base(t)
        if b is None:
            return
        if isinstance(t, ast.Name) or (isinstance(t, ast.Attribute) and b.count('.') == 1 and isinstance(t.value, ast.Name)
                                       and t.value.id in ('self', 'cls')):
            self.assigns.append((b, set(rhs), n, False))
        else:
            self.assigns.append((b, set(rhs) | {b}, n, True))

    def _state(self):
        st = set()
        if not self.infinite:
            st |= reads(self.node.test)
        else:
            def go(body, conds):
                for s in body:
                    if isinstance(s, (ast.Break, ast.Return, ast.Raise)):
                        for c in conds:
                            st.update(reads(c))
                    elif isinstance(s, ast.If):
                        go(s.body, conds + [s.test])
                        go(s.orelse, conds + [s.test])
                    elif isinstance(s, (ast.For, ast.While)):
                        # a return inside a nested loop leaves; a break does not
                        c2 = conds + ([s.test] if isinstance(s, ast.While) else [s.iter])
                        go([x for x in s.body if not isinstance(x, ast.Break)], c2)
                    elif isinstance(s, ast.Try):
                        go(s.body, conds)
                        for h in s.handlers:
                            go(h.body, conds + list(s.body))
                        go(s.orelse, conds)
                        go(s.finalbody, conds)
                    elif isinstance(s, ast.With):
                        go(s.body, conds)
            go(self.node.body, [])
        # close under assignments of the body
        done = False
        while not done:
            done = True
            for b, rhs, n, _ in self.assigns:
                if b in st and not rhs <= st:
                    st |= rhs
                    done = False
        return st

    def _guards(self):
        """id of a node -> keys read by the conditions it stands under (inside the loop)."""
        out = {}

        def go(node, ks):
            out[id(node)] = ks
            if isinstance(node, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                return
            inner = ks
            if isinstance(node, (ast.If, ast.While, ast.IfExp)) and node is not self.node:
                inner = ks | reads(node.test)
            for c in ast.iter_child_nodes(node):
                go(c, inner)
        go(self.node, set())
        return out

    def varying(self):
        """Keys that may hold different values in different iterations."""
        out = set(self.cyclic) | {b for b, rhs, n, inplace in self.assigns if b in rhs}
        while True:
            n0 = len(out)
            for b, rhs, n, inplace in self.assigns:
                if b in out:
                    continue
                if inplace or (rhs & out) or not isinstance(n, (ast.Assign, ast.AnnAssign)):
                    out.add(b)
                    continue
                v = n.value
                if isinstance(v, ast.Constant):
                    out.add(b)
                elif any(isinstance(x, ast.Call) and not self.pure(x) for x in ast.walk(v)):
                    out.add(b)
            if len(out) == n0:
                return out

    def pure(self, call):
        if self.prog is None:
            return False
        name, cands = self.prog.callees(call)
        if isinstance(call.func, ast.Name) and name in Program.BUILTIN:
            return True
        if not cands:
            return name in PURE or name in ('match', 'search', 'fullmatch', 'sub')
        return not any(self.prog.param(c, p.arg) for c in cands for p in c.node.args.args)

    def exposed(self):
        """Keys an iteration may read before it assigns them."""
        out = set()

        def expr(e, D):
            if e is not None:
                out.update(reads(e) - D)

        def assign(t, D):
            if isinstance(t, ast.Name):
                return D | {t.id}
            if isinstance(t, (ast.Tuple, ast.List)):
                for x in t.elts:
                    D = assign(x, D)
                return D
            if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == 'self':
                return D | {base(t)}
            out.update(reads(t) - D)
            return D

        ALL = None          # unreachable

        def meet(a, b):
            return b if a is ALL else a if b is ALL else a & b

        def flow(body, D):
            for s in body:
                if D is ALL:
                    return ALL
                if isinstance(s, ast.Assign):
                    expr(s.value, D)
                    for t in s.targets:
                        D = assign(t, D)
                elif isinstance(s, ast.AugAssign):
                    expr(s.value, D)
                    out.update(reads(s.target) - D)
                    D = assign(s.target, D)
                elif isinstance(s, ast.AnnAssign):
                    expr(s.value, D)
                    if s.value is not None:
                        D = assign(s.target, D)
                elif isinstance(s, (ast.Return, ast.Raise, ast.Break, ast.Continue)):
                    for c in ast.iter_child_nodes(s):
                        expr(c, D)
                    D = ALL
                elif isinstance(s, ast.If):
                    expr(s.test, D)
                    D = meet(flow(s.body, D), flow(s.orelse, D))
                elif isinstance(s, ast.While):
                    expr(s.test, D)
                    flow(s.body, D)
                    flow(s.orelse, D)
                elif isinstance(s, ast.For):
                    expr(s.iter, D)
                    flow(s.body, assign(s.target, D))
                    flow(s.orelse, D)
                elif isinstance(s, ast.Try):
                    a = flow(s.body, D)
                    a = flow(s.orelse, a) if a is not ALL else ALL
                    for h in s.handlers:
                        a = meet(a, flow(h.body, D))
                    f = flow(s.finalbody, D)
                    D = a if a is ALL or f is ALL else a | f
                elif isinstance(s, ast.With):
                    for i in s.items:
                        expr(i.context_expr, D)
                    D = flow(s.body, D)
                elif isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                    out.update({x.id for x in ast.walk(s) if isinstance(x, ast.Name)})
                elif isinstance(s, ast.Match):
                    expr(s.subject, D)
                    for c in s.cases:
                        flow(c.body, D)
                else:
                    expr(s, D)
            return D
        expr(self.node.test, set())
        flow(self.node.body, set())
        return out

    def cursors(self):
        return {b for b, _, _, inplace in self.assigns if not inplace}

    def _carried(self):
        cur = self.cursors()
        edges = {}
        for b, rhs, _, inplace in self.assigns:
            if b in self.state and not (inplace and b in cur):
                edges.setdefault(b, set()).update(rhs)
        out = set()
        for b in edges:
            seen, todo = set(), list(edges[b])
            while todo:
                x = todo.pop()
                if x == b:
                    out.add(b)
                    break
                if x in seen:
                    continue
                seen.add(x)
                todo.extend(edges.get(x, ()))
        self.cyclic = set(out)
        live = self.exposed()
        if any(b in live for b in out):
            out = {b for b in out if b in live}
        self.flag = False
        if not out:
            # a method of the object itself may change what the condition reads of it
            own = {k for k in self.state if k.startswith('self.') or k == 'self'}
            if own and self.selfcalls:
                for n in self.selfcalls:
                    for k in own:
                        self.assigns.append((k, {k}, n, True))
                out = own
        if not out:
            # nothing is computed from itself: anything assigned counts, but then the loop is driven by a flag
            var = self.varying()
            out = {b for b, _, _, _ in self.assigns if b in self.state and b in var}
            self.flag = bool(out)
        # if x >= y: x = f(x) else: y = g(y): the other branch makes the progress
        by = {}
        for b, rhs, n, inplace in self.assigns:
            by.setdefault(id(n), []).append((b, rhs, inplace))
        for st in self.node.body:
            for n in self.walk(st):
                if isinstance(n, ast.If) and n.orelse:
                    rd = reads(n.test)
                    sides = []
                    for body in (n.body, n.orelse):
                        sides.append([x for q in body for m in self.walk(q) for x in by.get(id(m), ())])
                    for one, other in (sides, sides[::-1]):
                        if any(b in out for b, _, _ in one) and not any(b in out for b, _, _ in other):
                            out = out | {b for b, rhs, inplace in other if b in rd and b in rhs and not inplace and '.' not in b}
        return out

    # ------------------------------------------------------------ dataflow
    def stuck(self):
        """True when some path leads from the head back to the head without progress."""
        changed = {}
        cur = self.cursors()
        var = self.varying()
        for b, rhs, n, inplace in self.assigns:
            if b in self.carried and not (inplace and b in cur):
                if not inplace and isinstance(n, (ast.Assign, ast.AnnAssign)) and not (rhs & var) \
                        and not isinstance(n.value, (ast.Constant, ast.List, ast.Dict)) \
                        and all(self.pure(x) for x in ast.walk(n.value) if isinstance(x, ast.Call)):
                    continue            # the same value every time
                changed.setdefault(id(n), set()).add(b)
        own = {k for k in self.carried if k.startswith('self.')}
        if own and self.prog is not None:
            for n in self.selfcalls:
                _, cands = self.prog.callees(n)
                if not cands or any(self.prog.param(c, c.node.args.args[0].arg) for c in cands if c.node.args.args):
                    changed.setdefault(id(n), set()).update(own)
        self.changed = changed

        def touches(node):
            return any(id(n) in changed for n in self.walk(node))

        def trivial(s):
            return isinstance(s, ast.Assign) and len(s.targets) == 1 and ast.dump(s.targets[0]).replace('Store', 'Load') == ast.dump(s.value)

        def flow(body, st):
            """states (progress made?) -> (states after, states at continue, states at break)"""
            cont, brk = set(), set()
            for s in body:
                if not st:
                    break
                if isinstance(s, ast.Continue):
                    cont |= st
                    st = set()
                elif isinstance(s, ast.Break):
                    brk |= st
                    st = set()
                elif isinstance(s, (ast.Return, ast.Raise)):
                    st = set()
                elif isinstance(s, ast.If):
                    if touches(s.test):
                        st = {True}
                    t = s.test
                    a = flow(s.body, st) if not (isinstance(t, ast.Constant) and not t.value) else (set(), set(), set())
                    b = flow(s.orelse, st) if not (isinstance(t, ast.Constant) and t.value) else (set(), set(), set())
                    st = a[0] | b[0]
                    cont |= a[1] | b[1]
                    brk |= a[2] | b[2]
                elif isinstance(s, (ast.For, ast.While)):
                    if touches(s.iter if isinstance(s, ast.For) else s.test):
                        st = {True}
                    a = flow(s.body, st)
                    inf = isinstance(s, ast.While) and isinstance(s.test, ast.Constant) and s.test.value
                    after = set() if inf else st | a[0] | a[1]
                    if isinstance(s, ast.For) and base(s.iter) in self.carried and isinstance(s.iter, (ast.Name, ast.Attribute)):
                        # changing every element of what the condition reads
                        after = (a[0] | a[1]) or st
                    # entering again does not undo progress
                    e = flow(s.orelse, after)
                    st = e[0] | a[2]
                    cont |= e[1]
                    brk |= e[2]
                elif isinstance(s, ast.Try):
                    a = flow(s.body, st)
                    ent = st | a[0] | a[1]
                    o = flow(s.orelse, a[0])
                    res = o[0] if s.orelse else a[0]
                    cont |= a[1] | (o[1] if s.orelse else set())
                    brk |= a[2] | (o[2] if s.orelse else set())
                    for h in s.handlers:
                        b = flow(h.body, ent)
                        res = res | b[0]
                        cont |= b[1]
                        brk |= b[2]
                    f = flow(s.finalbody, res)
                    st = f[0]
                    cont |= f[1]
                    brk |= f[2]
                elif isinstance(s, (ast.With, ast.AsyncWith)):
                    if any(touches(i) for i in s.items):
                        st = {True}
                    a = flow(s.body, st)
                    st = a[0]
                    cont |= a[1]
                    brk |= a[2]
                elif isinstance(s, ast.Match):
                    res = set(st)
                    for c in s.cases:
                        a = flow(c.body, st)
                        res |= a[0]
                        cont |= a[1]
                        brk |= a[2]
                    st = res
                else:
                    if not trivial(s) and touches(s):
                        st = {True}
            return st, cont, brk
        init = {True} if (not self.infinite and touches(self.node.test)) else {False}
        a = flow(self.node.body, init)
        return False in (a[0] | a[1])

    # ------------------------------------------------------------ clobbered counters
    def clobbered(self):
        """A counter of the loop that an inner for loop uses as its own variable and that is read again afterwards."""
        counters = {b for b, rhs, n, inplace in self.assigns if b in self.carried and not inplace and isinstance(n, ast.AugAssign)
                    and step(n, b) is not None}
        for s in self.node.body:
            for n in self.walk(s):
                if isinstance(n, ast.For):
                    for x in targets(n.target):
                        if isinstance(x, ast.Name) and x.id in counters:
                            # fine when the counter is set anew from something else, or the loop is left
                            if not any(b == x.id and not inplace and isinstance(m, ast.Assign) for b, _, m, inplace in self.assigns):
                                return x.id, n
        return None

    # ------------------------------------------------------------ direction
    def wrong_way(self):
        """A counter that the condition bounds on one side but that every change moves away from the bound."""
        tests = []
        t = self.node.test
        for c in (t.values if isinstance(t, ast.BoolOp) and isinstance(t.op, ast.And) else [t]):
            if isinstance(c, ast.Compare) and len(c.ops) == 1 and isinstance(c.left, ast.Name):
                op = c.ops[0]
                need = 1 if isinstance(op, (ast.Lt, ast.LtE)) else -1 if isinstance(op, (ast.Gt, ast.GtE)) else 0
                if isinstance(op, ast.In) and isinstance(c.comparators[0], ast.Call) and base(c.comparators[0].func) == 'range':
                    need = 0
                if need:
                    tests.append((c.left.id, need, reads(c.comparators[0])))
        if not tests:
            return None
        bad = []
        for v, need, bound in tests:
            steps = []
            for b, rhs, n, inplace in self.assigns:
                if b in bound:
                    return None
                if b != v:
                    continue
                d = step(n, v)
                steps.append(d)
            if steps and all(d is not None and d * need < 0 for d in steps):
                bad.append(v)
            else:
                return None
        return bad[0] if bad and len(bad) == len(tests) else None


def step(n, v):
    """Sign of the change of v by statement n, if constant."""
    def cv(e):
        return e.value if isinstance(e, ast.Constant) and isinstance(e.value, (int, float)) and not isinstance(e.value, bool) else None
    if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name) and n.target.id == v:
        c = cv(n.value)
        if c is None:
            return None
        return c if isinstance(n.op, ast.Add) else -c if isinstance(n.op, ast.Sub) else None
    if isinstance(n, ast.Assign) and isinstance(n.value, ast.BinOp) and isinstance(n.value.left, ast.Name) and n.value.left.id == v:
        c = cv(n.value.right)
        if c is None:
            return None
        return c if isinstance(n.value.op, ast.Add) else -c if isinstance(n.value.op, ast.Sub) else None
    return None


def identity_only(test):
    """Keys a condition only compares with None."""
    ident, other = set(), set()

    def go(e):
        if isinstance(e, ast.BoolOp):
            for v in e.values:
                go(v)
        elif isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            go(e.operand)
        elif isinstance(e, ast.Compare) and len(e.ops) == 1 and isinstance(e.ops[0], (ast.Is, ast.IsNot)):
            for x in (e.left, e.comparators[0]):
                if isinstance(x, ast.Name):
                    ident.add(x.id)
                elif not isinstance(x, ast.Constant):
                    other.update(reads(x))
        else:
            other.update(reads(e))
    go(test)
    return ident - other


IMMUTABLE = ('str', 'int', 'bool', 'float', 'bytes', 'OffsetQL', 'HumNum', 'HumNumIn', 'OffsetQLIn', 'Fraction', 'None', 'tuple')


def immutable_names(fn_node):
    out, mutable = set(), set()

    def ann(name, a):
        names = [x.strip() for x in ast.unparse(a).strip("'").split('|')]
        (out if all(x.split('[')[0] in IMMUTABLE for x in names) else mutable).add(name)
    a = fn_node.args
    for x in a.posonlyargs + a.args + a.kwonlyargs:
        if x.annotation is not None:
            ann(x.arg, x.annotation)
    for n in ast.walk(fn_node):
        if isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name):
            ann(n.target.id, n.annotation)
    return out - mutable


class Program:
    """Which functions of the program change an argument in place."""
    BUILTIN = {'len', 'range', 'int', 'float', 'str', 'isinstance', 'enumerate', 'zip', 'list', 'sorted', 'opFrac', 'max', 'min', 'abs',
               'bool', 'print', 'type', 'getattr', 'hasattr', 'id', 'repr', 'round', 'sum', 'set', 'dict', 'tuple', 'any', 'all',
               'reversed', 'Fraction', 'issubclass', 'frozenset', 'ord', 'chr', 'map', 'filter', 'cast'}
    EXT = {'append', 'insert', 'index', 'count', 'add', 'remove', 'discard', 'sub', 'match', 'search', 'fullmatch', 'findall', 'get',
           'startswith', 'endswith', 'join', 'replace', 'split', 'find', 'Duration', 'cast', 'deepcopy', 'copy', 'setdefault', 'extend'}

    def __init__(self, R):
        self.R = R
        self.memo = {}

    def callees(self, call):
        f = call.func
        name = f.id if isinstance(f, ast.Name) else f.attr if isinstance(f, ast.Attribute) else None
        return name, [x for x in self.R.functions if x.name == name] if name else []

    def changes(self, call, which):
        name, cands = self.callees(call)
        if name is None:
            return True
        if isinstance(call.func, ast.Name) and name in self.BUILTIN:
            return False
        if not cands:
            return name not in self.EXT
        for c in cands:
            a = c.node.args
            ps = [x.arg for x in a.posonlyargs + a.args]
            if isinstance(which, int):
                off = 1 if c.cls is not None and not c.is_static else 0
                if which + off >= len(ps):
                    return True
                p = ps[which + off]
            else:
                p = which
                if p not in ps + [x.arg for x in a.kwonlyargs]:
                    continue
            if self.param(c, p):
                return True
        return False

    def param(self, fn, p):
        key = (fn.where, fn.node.lineno, p)
        if key in self.memo:
            return self.memo[key]
        self.memo[key] = False          # recursion: least fixed point
        res = self._param(fn, p)
        self.memo[key] = res
        return res

    def _param(self, fn, p):
        if p in immutable_names(fn.node):
            return False
        alias = {p}
        for _ in range(4):
            n0 = len(alias)
            for n in ast.walk(fn.node):
                if isinstance(n, ast.Assign) and (reads(n.value) & alias):
                    for t in n.targets:
                        for x in targets(t):
                            if isinstance(x, ast.Name):
                                alias.add(x.id)
                            elif base(x) not in (None,) and isinstance(x, (ast.Attribute, ast.Subscript)) and base(x) not in alias:
                                # stored away: somebody else may change it later, but not here
                                pass
                elif isinstance(n, (ast.For, ast.comprehension)) and (reads(n.iter) & alias):
                    alias |= {x.id for x in targets(n.target) if isinstance(x, ast.Name)}
                elif isinstance(n, ast.AnnAssign) and n.value is not None and (reads(n.value) & alias) and isinstance(n.target, ast.Name):
                    alias.add(n.target.id)
            if len(alias) == n0:
                break
        for n in ast.walk(fn.node):
            if isinstance(n, (ast.Attribute, ast.Subscript)) and isinstance(n.ctx, (ast.Store, ast.Del)) and base(n) in alias:
                return True
            if isinstance(n, ast.Call):
                f = n.func
                if isinstance(f, ast.Attribute) and base(f.value) in alias and f.attr not in PURE:
                    cs = [x for x in self.R.functions if x.name == f.attr]
                    if not cs or any(self.param(c, c.node.args.args[0].arg) for c in cs if c.node.args.args):
                        return True
                for i, a in enumerate(n.args):
                    if base(a) in alias and isinstance(a, (ast.Name, ast.Attribute)) and self.changes(n, i):
                        return True
                for k in n.keywords:
                    if k.arg and base(k.value) in alias and isinstance(k.value, (ast.Name, ast.Attribute)) and self.changes(n, k.arg):
                        return True
        return False


def loops(fn_node):
    todo = list(ast.iter_child_nodes(fn_node))
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Lambda)):
            continue
        if isinstance(n, ast.While):
            yield n
        todo.extend(ast.iter_child_nodes(n))


# ---------------------------------------------------------------------------------------------- growing what is being walked
GROW = ('append', 'insert', 'extend', 'appendleft', 'add', 'setdefault', 'update')


def growing(fn_node):
    """(for loop, call) pairs: a for loop over a collection whose body adds to that collection and goes on."""
    for n in ast.walk(fn_node):
        if not isinstance(n, ast.For):
            continue
        it = n.iter
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == 'enumerate' and it.args:
            it = it.args[0]
        if not isinstance(it, (ast.Name, ast.Attribute)):
            continue
        key = ast.dump(it).replace('Store', 'Load')
        if isinstance(it, ast.Name) and any(isinstance(x, ast.Name) and x.id == it.id and isinstance(x.ctx, ast.Store)
                                            for s in n.body for x in ast.walk(s)):
            continue

        def go(body):
            """calls that grow the collection after which the loop may go on"""
            out = []
            for i, s in enumerate(body):
                rest = body[i + 1:]
                leaves = any(isinstance(x, (ast.Break, ast.Return, ast.Raise)) for x in rest)
                if isinstance(s, (ast.If, ast.For, ast.While, ast.With, ast.Try)):
                    subs = [s.body, getattr(s, 'orelse', [])] + [h.body for h in getattr(s, 'handlers', [])] + [getattr(s, 'finalbody', [])]
                    for b in subs:
                        r = go(b)
                        if not leaves:
                            out += r
                elif isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute) \
                        and s.value.func.attr in GROW and ast.dump(s.value.func.value) == key and not leaves:
                    out.append(s.value)
            return out
        for c in go(n.body):
            yield n, c


# ---------------------------------------------------------------------------------------------- walking to and fro
def ways(loop):
    """Directions ('next', 'previous', 'parent') the cursors of a loop are moved in: cursor -> {direction: statement}."""
    out = {}
    for b, rhs, n, inplace in loop.assigns:
        if inplace or b not in loop.carried or not isinstance(n, (ast.Assign, ast.AnnAssign)) or b not in rhs:
            continue
        v = n.value
        if isinstance(v, ast.Call):
            v = v.func
        if isinstance(v, ast.Subscript):
            v = v.value
        if isinstance(v, ast.Attribute) and isinstance(v.value, ast.Name) and v.value.id == b:
            low = v.attr.lower()
            for d, words in (('next', ('next',)), ('previous', ('prev',)), ('parent', ('parent',))):
                if any(w in low for w in words):
                    axis = 'field' if 'field' in low else 'line'
                    out.setdefault(b, {}).setdefault(axis, {}).setdefault(d, n)
    return {b: {a: d for a, d in ax.items()} for b, ax in out.items()}


# ---------------------------------------------------------------------------------------------- recursion
def same_recursion(fn):
    """Calls of a function to itself with exactly its own parameters, nothing having changed before."""
    a = fn.node.args
    ps = [x.arg for x in a.posonlyargs + a.args]
    method = fn.cls is not None and not fn.is_static
    own = ps[1:] if method else ps
    stores = [n for n in ast.walk(fn.node) if isinstance(n, (ast.Name, ast.Attribute, ast.Subscript)) and isinstance(n.ctx, (ast.Store, ast.Del))]
    for n in ast.walk(fn.node):
        if not isinstance(n, ast.Call):
            continue
        f = n.func
        if method:
            ok = isinstance(f, ast.Attribute) and f.attr == fn.name and isinstance(f.value, ast.Name) and f.value.id == ps[0]
        elif fn.cls is not None:
            ok = isinstance(f, ast.Attribute) and f.attr == fn.name and isinstance(f.value, ast.Name) and f.value.id == fn.cls.name
        else:
            ok = isinstance(f, ast.Name) and f.id == fn.name
        if not ok:
            continue
        args = [x.id if isinstance(x, ast.Name) else None for x in n.args]
        kws = {k.arg: (k.value.id if isinstance(k.value, ast.Name) else None) for k in n.keywords}
        full = dict(zip(own, args)) | kws
        unchanged = all(full.get(p) == p for p in own if p in full) and len(full) == len(own)
        if unchanged and not any((isinstance(s, ast.Name) and s.id in ps) or (not isinstance(s, ast.Name) and base(s) is not None and
                                 base(s).split('.')[0] in ps) for s in stores):
            yield n, True
        else:
            yield n, False


# ---------------------------------------------------------------------------------------------- running off the end
def unbounded_index(loop):
    """A condition that indexes a sequence with a cursor the loop advances, with nothing that bounds the cursor first."""
    t = loop.node.test
    conj = t.values if isinstance(t, ast.BoolOp) and isinstance(t.op, ast.And) else [t]
    seen = set()
    for c in conj:
        for n in ast.walk(c):
            if isinstance(n, ast.Subscript) and isinstance(n.slice, (ast.Name, ast.BinOp)) and isinstance(n.ctx, ast.Load):
                for v in reads(n.slice):
                    steps = [step(m, v) for b, _, m, inplace in loop.assigns if b == v and not inplace]
                    if v in seen or not steps or any(s is None for s in steps):
                        continue
                    # a break or return of the body that looks at the cursor also bounds it
                    guard = any(isinstance(x, ast.If) and v in reads(x.test) and any(isinstance(y, (ast.Break, ast.Return, ast.Raise))
                                for y in x.body + x.orelse) for s in loop.node.body for x in loop.walk(s))
                    if not guard:
                        return v, n
        if isinstance(c, ast.Compare):
            seen |= reads(c) if not any(isinstance(x, ast.Subscript) for x in ast.walk(c)) else set()
        elif isinstance(c, ast.Name):
            seen.add(c.id)
    return None
