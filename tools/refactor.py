#!/usr/bin/env python3-vt
"""refactor.py T1,T2 OUTDIR: a copy of /repo with behaviour-preserving edits applied to the whole package (development aid)."""
import re, ast, copy, os, shutil, sys

class Base(ast.NodeTransformer):
    n = 0
    def body(self, body):
        return body

def locals_of(fn):
    a = fn.args
    out = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs} | ({a.vararg.arg} if a.vararg else set()) | ({a.kwarg.arg} if a.kwarg else set())
    params = set(out)
    for n in ast.walk(fn):
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)
        elif isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
    return out, params

def has_nested(fn):
    return any(isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.Global, ast.Nonlocal, ast.Match, ast.Import, ast.ImportFrom)) for n in ast.walk(fn) if n is not fn)

class Rename(Base):
    def visit_FunctionDef(self, fn):
        if has_nested(fn) or any(isinstance(n, ast.ExceptHandler) and n.name for n in ast.walk(fn)):
            self.generic_visit(fn); return fn
        loc, params = locals_of(fn)
        mp = {x: x + '_r' for x in loc - params if not x.startswith('__') and x != '_'}
        for n in ast.walk(fn):
            if isinstance(n, ast.Name) and n.id in mp:
                n.id = mp[n.id]; self.n += 1
        return fn

class Ret(Base):
    def visit_Return(self, s):
        if s.value is None or isinstance(s.value, (ast.Constant, ast.Name)): return s
        self.n += 1
        return [ast.Assign([ast.Name('_vp_ret', ast.Store())], s.value), ast.Return(ast.Name('_vp_ret', ast.Load()))]

def tc(test):
    return 'TYPE_CHECKING' in ast.dump(test)

class Invert(Base):
    def visit_If(self, s):
        self.generic_visit(s)
        if not s.orelse or tc(s.test): return s
        self.n += 1
        return ast.If(ast.UnaryOp(ast.Not(), s.test), s.orelse, s.body)

class InOr(Base):
    def visit_Compare(self, c):
        self.generic_visit(c)
        if len(c.ops) == 1 and isinstance(c.ops[0], (ast.In, ast.NotIn)) and isinstance(c.comparators[0], ast.Tuple) and isinstance(c.left, ast.Name) \
                and 1 < len(c.comparators[0].elts) <= 6 and all(isinstance(x, ast.Constant) and x.value is not None for x in c.comparators[0].elts):
            self.n += 1
            neg = isinstance(c.ops[0], ast.NotIn)
            vals = [ast.Compare(c.left, [ast.NotEq() if neg else ast.Eq()], [x]) for x in c.comparators[0].elts]
            return ast.BoolOp(ast.And() if neg else ast.Or(), vals)
        return c

class FStr(Base):
    def visit_JoinedStr(self, j):
        if any(isinstance(v, ast.FormattedValue) and (v.format_spec is not None or v.conversion not in (-1,)) for v in j.values): return j
        self.generic_visit(j)
        if not j.values: return j
        self.n += 1
        parts = [v if isinstance(v, ast.Constant) else ast.Call(ast.Name('str', ast.Load()), [v.value], []) for v in j.values]
        e = ast.Constant('')
        for p in parts: e = ast.BinOp(e, ast.Add(), p)
        return e
    def visit_FormattedValue(self, v):
        self.generic_visit(v); return v

class Annot(Base):
    def visit_ClassDef(self, c):
        for i, x in enumerate(c.body):
            if isinstance(x, ast.FunctionDef): c.body[i] = self.visit(x)
        return c
    def visit_FunctionDef(self, f):
        self.infn = True
        self.generic_visit(f)
        return f
    def visit_AnnAssign(self, s):
        if not getattr(self, 'infn', False): return s
        if s.value is None: return ast.Pass()
        if isinstance(s.target, ast.Name):
            self.n += 1
            return ast.Assign([s.target], s.value)
        return s

class WhileTrue(Base):
    def visit_While(self, w):
        self.generic_visit(w)
        if w.orelse or (isinstance(w.test, ast.Constant)): return w
        self.n += 1
        return ast.While(ast.Constant(True), [ast.If(ast.UnaryOp(ast.Not(), w.test), [ast.Break()], [])] + w.body, [])

class Aug(Base):
    def visit_AugAssign(self, s):
        if isinstance(s.target, ast.Name) and isinstance(s.value, (ast.Constant, ast.JoinedStr)):
            self.n += 1
            return ast.Assign([s.target], ast.BinOp(ast.Name(s.target.id, ast.Load()), s.op, s.value))
        return s

class Comp(Base):
    def one(self, t, v):
        if isinstance(v, ast.ListComp) and len(v.generators) == 1 and not v.generators[0].is_async and isinstance(t, ast.Name):
            g = v.generators[0]
            if any(isinstance(x, ast.Name) and x.id == t.id for x in ast.walk(v)): return None
            body = [ast.Expr(ast.Call(ast.Attribute(ast.Name(t.id, ast.Load()), 'append', ast.Load()), [v.elt], []))]
            for c in reversed(g.ifs): body = [ast.If(c, body, [])]
            self.n += 1
            return [ast.Assign([t], ast.List([], ast.Load())), ast.For(g.target, g.iter, body, [])]
    def visit_FunctionDef(self, f):
        self.f = f; self.generic_visit(f); return f
    def visit_Assign(self, s):
        return self.one(s.targets[0], s.value) or s if len(s.targets) == 1 and hasattr(self, 'f') else s

class Enum(Base):
    def visit_For(self, s):
        self.generic_visit(s)
        it = s.iter
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == 'enumerate' and len(it.args) == 1 and not it.keywords \
                and isinstance(s.target, ast.Tuple) and isinstance(s.target.elts[0], ast.Name) and not s.orelse:
            i = s.target.elts[0].id
            if any(isinstance(x, ast.Name) and x.id == i and isinstance(x.ctx, ast.Store) for b in s.body for x in ast.walk(b)): return s
            self.n += 1
            inc = ast.AugAssign(ast.Name(i, ast.Store()), ast.Add(), ast.Constant(1))
            return [ast.Assign([ast.Name(i, ast.Store())], ast.UnaryOp(ast.USub(), ast.Constant(1))), ast.For(s.target.elts[1], it.args[0], [inc] + s.body, [])]
        return s

class Nest(Base):
    def visit_If(self, s):
        self.generic_visit(s)
        if not s.orelse and isinstance(s.test, ast.BoolOp) and isinstance(s.test.op, ast.And) and not tc(s.test):
            self.n += 1
            inner = s.body
            for v in reversed(s.test.values): inner = [ast.If(v, inner, [])]
            return inner[0]
        return s

class Tern(Base):
    def visit_Assign(self, s):
        if len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and isinstance(s.value, ast.IfExp) and getattr(self, 'infn', False):
            self.n += 1
            return ast.If(s.value.test, [ast.Assign(s.targets, s.value.body)], [ast.Assign(copy.deepcopy(s.targets), s.value.orelse)])
        return s
    def visit_FunctionDef(self, f):
        self.infn = True; self.generic_visit(f); return f

class Helper(Base):
    """return expr -> return Cls.helper(locals); also x = expr"""
    def visit_ClassDef(self, c):
        new = []
        for fn in c.body:
            if isinstance(fn, ast.FunctionDef) and not has_nested(fn) and not any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(fn)) \
                    and not any(isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == 'super' for x in ast.walk(fn)):
                loc, _ = locals_of(fn)
                comp = {x.id for n in ast.walk(fn) if isinstance(n, ast.comprehension) for x in ast.walk(n.target) if isinstance(x, ast.Name)}
                for n in ast.walk(fn):
                    v = None
                    if isinstance(n, ast.Return) and n.value is not None and isinstance(n.value, (ast.Call, ast.BinOp, ast.Tuple, ast.Subscript, ast.Dict)): v = n.value
                    elif isinstance(n, ast.If) and isinstance(n.test, (ast.BoolOp, ast.Compare)) and not tc(n.test): v = n.test
                    if v is None or any(isinstance(x, (ast.NamedExpr, ast.Await, ast.Lambda)) for x in ast.walk(v)): continue
                    if 'hasattr' in ast.dump(v): continue
                    names = [x.id for x in ast.walk(v) if isinstance(x, ast.Name)]
                    if isinstance(n, ast.If):
                        # lazily evaluated names may be unbound: only take conditions without short circuit over several locals
                        if isinstance(v, ast.BoolOp): continue
                    own = {x.id for q in ast.walk(v) if isinstance(q, ast.comprehension) for x in ast.walk(q.target) if isinstance(x, ast.Name)}
                    args = sorted({x for x in names if x in loc and x not in own})
                    if any(x in comp and x not in own for x in args): continue
                    if '__class__' in names or any(x.startswith('__') for x in names): continue
                    if any(isinstance(x, ast.Attribute) and x.attr.startswith('__') and not x.attr.endswith('__') for x in ast.walk(v)): continue
                    self.n += 1
                    hn = f'_vp_helper_{self.n}'
                    h = ast.FunctionDef(hn, ast.arguments([], [ast.arg(a) for a in args], None, [], [], None, []), [ast.Return(copy.deepcopy(v))],
                                        [ast.Name('staticmethod', ast.Load())], None)
                    new.append(h)
                    call = ast.Call(ast.Attribute(ast.Name(c.name, ast.Load()), hn, ast.Load()), [ast.Name(a, ast.Load()) for a in args], [])
                    if isinstance(n, ast.Return): n.value = call
                    else: n.test = call
        c.body += new
        return c
    def visit_FunctionDef(self, f): return f

class Guard(Base):
    """function body ends with  if c: A(without return)   ->   if not c: return ; A"""
    def visit_FunctionDef(self, f):
        self.generic_visit(f)
        s = f.body[-1]
        if isinstance(s, ast.If) and not s.orelse and not tc(s.test) and not any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(f)):
            self.n += 1
            f.body[-1:] = [ast.If(ast.UnaryOp(ast.Not(), s.test), [ast.Return(None)], [])] + s.body
        return f

class Swap(Base):
    """swap adjacent independent assignments of names"""
    def seq(self, body):
        i = 0
        while i + 1 < len(body):
            a, b = body[i], body[i + 1]
            def ok(s):
                return isinstance(s, (ast.Assign, ast.AnnAssign)) and s.value is not None and isinstance(s.targets[0] if isinstance(s, ast.Assign) else s.target, ast.Name) \
                    and not any(isinstance(x, (ast.Call, ast.Attribute, ast.Subscript, ast.Yield, ast.NamedExpr)) for x in ast.walk(s.value))
            if ok(a) and ok(b):
                st = lambda s: {x.id for x in ast.walk(s) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
                ld = lambda s: {x.id for x in ast.walk(s.value) if isinstance(x, ast.Name)}
                if not (st(a) & st(b)) and not (st(a) & ld(b)) and not (st(b) & ld(a)):
                    body[i], body[i + 1] = b, a; self.n += 1; i += 2; continue
            i += 1
    def generic_visit(self, n):
        super().generic_visit(n)
        if isinstance(n, (ast.FunctionDef, ast.If, ast.For, ast.While, ast.With)):
            self.seq(n.body)
        return n

class Noop(Base):
    def visit_FunctionDef(self, f):
        self.generic_visit(f)
        self.n += 1
        k = 1 if isinstance(f.body[0], ast.Expr) and isinstance(f.body[0].value, ast.Constant) else 0
        f.body.insert(k, ast.Assign([ast.Name('_vp_unused', ast.Store())], ast.Constant(0)))
        return f

class TestVar(Base):
    """if <compare>: -> flag = <compare>; if flag:   (not for elif)"""
    def block(self, body):
        out = []
        for s in body:
            if isinstance(s, ast.If) and isinstance(s.test, (ast.Compare, ast.BoolOp, ast.Call)) and not tc(s.test):
                self.n += 1
                v = f'_vp_c{self.n}'
                out.append(ast.Assign([ast.Name(v, ast.Store())], s.test)); s.test = ast.Name(v, ast.Load())
            out.append(s)
        return out
    def visit_FunctionDef(self, f):
        self.infn = True; self.generic_visit(f); f.body = self.block(f.body); return f
    def visit_For(self, f):
        self.generic_visit(f); f.body = self.block(f.body); return f

def stores(n):
    return {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del))}

def loads(n):
    return {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load)} | \
        {x.target.id for x in ast.walk(n) if isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name)}

def escapes(n, inloop=False):
    """return, or a break/continue of an outer loop"""
    if isinstance(n, (ast.Return, ast.Yield, ast.YieldFrom, ast.Try, ast.Delete, ast.NamedExpr, ast.Lambda, ast.FunctionDef, ast.With, ast.Global, ast.Nonlocal, ast.Assert)): return True
    if isinstance(n, (ast.Break, ast.Continue)): return not inloop
    if isinstance(n, (ast.For, ast.While)):
        return any(escapes(x, True) for x in n.body) or any(escapes(x, inloop) for x in n.orelse) or \
            escapes(n.iter if isinstance(n, ast.For) else n.test)
    return any(escapes(x, inloop) for x in ast.iter_child_nodes(n))

class Extract(Base):
    """compound statements of methods moved to methods of their own"""
    def visit_FunctionDef(self, f): return f
    def visit_ClassDef(self, c):
        new = []
        for fn in c.body:
            if not isinstance(fn, ast.FunctionDef) or has_nested(fn) or fn.name.startswith('__'): continue
            if any(isinstance(x, (ast.Yield, ast.YieldFrom, ast.Global, ast.Nonlocal)) or isinstance(x, ast.Name) and x.id in ('super', '__class__', 'locals') for x in ast.walk(fn)): continue
            decos = {ast.unparse(d) for d in fn.decorator_list}
            if decos - {'staticmethod', 'property'}: continue
            static = 'staticmethod' in decos
            a = fn.args
            params = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs} | ({a.vararg.arg} if a.vararg else set()) | ({a.kwarg.arg} if a.kwarg else set())
            allstores = stores(fn) | params
            def block(body, bound, inloop):
                bound = set(bound)
                for i, s in enumerate(body):
                    big = sum(isinstance(x, ast.stmt) for x in ast.walk(s)) >= 3
                    if isinstance(s, (ast.If, ast.For, ast.While)) and big and not escapes(s) and not tc(s) and 'TYPE_CHECKING' not in ast.dump(s):
                        comp = {x.id for q in ast.walk(s) if isinstance(q, ast.comprehension) for x in ast.walk(q.target) if isinstance(x, ast.Name)}
                        w = stores(s) - comp
                        r = (loads(s) & allstores) - comp
                        inside = {id(x) for x in ast.walk(s)}
                        later = {x.id for x in ast.walk(fn) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) and id(x) not in inside}
                        unb = (w | r) - bound
                        if not (unb & later) and not (unb - w) and not (comp & (w | later)):
                            args = sorted(((r | (w & later)) & bound) - {'self'})
                            outs = sorted(w & later & bound)
                            self.n += 1
                            hn = f'_vp_part_{c.name}_{self.n}'
                            hb = [s] + ([ast.Return(ast.Tuple([ast.Name(o, ast.Load()) for o in outs], ast.Load()) if len(outs) > 1 else ast.Name(outs[0], ast.Load()))] if outs else [])
                            ar = ([] if static else [ast.arg('self')]) + [ast.arg(x) for x in args]
                            new.append(ast.FunctionDef(hn, ast.arguments([], ar, None, [], [], None, []), hb, [ast.Name('staticmethod', ast.Load())] if static else [], None))
                            call = ast.Call(ast.Attribute(ast.Name(c.name if static else 'self', ast.Load()), hn, ast.Load()), [ast.Name(x, ast.Load()) for x in args], [])
                            if outs:
                                t = ast.Tuple([ast.Name(o, ast.Store()) for o in outs], ast.Store()) if len(outs) > 1 else ast.Name(outs[0], ast.Store())
                                body[i] = ast.Assign([t], call)
                            else:
                                body[i] = ast.Expr(call)
                            continue
                    if isinstance(s, ast.If):
                        block(s.body, bound, inloop); block(s.orelse, bound, inloop)
                    elif isinstance(s, (ast.For, ast.While)):
                        b2 = bound | (stores(s.target) if isinstance(s, ast.For) else set())
                        block(s.body, b2, True)
                    if isinstance(s, ast.Assign) or isinstance(s, ast.AnnAssign) and s.value is not None:
                        for tg in (s.targets if isinstance(s, ast.Assign) else [s.target]): bound |= stores(tg)
            if not static and (not a.args or a.args[0].arg != 'self'): continue
            block(fn.body, params, False)
        c.body += new
        return c

class ForWhile(Base):
    """for i in range(..) -> while"""
    def visit_FunctionDef(self, f):
        if has_nested(f): return f
        for n in ast.walk(f):
            for fld in ('body', 'orelse', 'finalbody'):
                b = getattr(n, fld, None)
                if not isinstance(b, list): continue
                i = 0
                while i < len(b):
                    s = b[i]
                    if isinstance(s, ast.For) and not s.orelse and isinstance(s.target, ast.Name) and isinstance(s.iter, ast.Call) and ast.unparse(s.iter.func) == 'range' \
                            and len(s.iter.args) < 3 and not any(isinstance(x, ast.Continue) for x in ast.walk(s)):
                        v = s.target.id
                        inside = {id(x) for x in ast.walk(s)}
                        if not any(isinstance(x, ast.Name) and x.id == v and id(x) not in inside for x in ast.walk(f)) and \
                                not any(isinstance(x, ast.Name) and x.id == v and isinstance(x.ctx, ast.Store) and x is not s.target for x in ast.walk(s)):
                            self.n += 1
                            lo, hi = (ast.Constant(0), s.iter.args[0]) if len(s.iter.args) == 1 else s.iter.args
                            e = f'_vp_end{self.n}'
                            b[i:i + 1] = [ast.Assign([ast.Name(e, ast.Store())], hi), ast.Assign([ast.Name(v, ast.Store())], lo),
                                          ast.While(ast.Compare(ast.Name(v, ast.Load()), [ast.Lt()], [ast.Name(e, ast.Load())]),
                                                    s.body + [ast.AugAssign(ast.Name(v, ast.Store()), ast.Add(), ast.Constant(1))], [])]
                            i += 2
                    i += 1
        return f

class GetIf(Base):
    """d.get(k, x) -> d[k] if k in d else x"""
    def visit_Call(self, c):
        self.generic_visit(c)
        if isinstance(c.func, ast.Attribute) and c.func.attr == 'get' and len(c.args) in (1, 2) and not c.keywords and \
                isinstance(c.func.value, (ast.Name, ast.Attribute)) and isinstance(c.args[0], (ast.Name, ast.Constant)) and \
                re.match(r'^[\w.]*[A-Z_]{3,}[\w.]*$|^\w+\.\w*(To|From)[A-Z]\w*$', ast.unparse(c.func.value)):
            self.n += 1
            d = c.func.value
            return ast.IfExp(ast.Compare(c.args[0], [ast.In()], [d]), ast.Subscript(copy.deepcopy(d), copy.deepcopy(c.args[0]), ast.Load()),
                             c.args[1] if len(c.args) == 2 else ast.Constant(None))
        return c

class ForIdx(Base):
    """for x in NAME -> for k in range(len(NAME)): x = NAME[k]   (names annotated as lists that the body does not touch)"""
    def visit_FunctionDef(self, f):
        if has_nested(f): return f
        lists = {n.target.id for n in ast.walk(f) if isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and ast.unparse(n.annotation).startswith('list[')}
        lists |= {a.arg for a in f.args.args if a.annotation is not None and ast.unparse(a.annotation).startswith('list[')}
        for s in ast.walk(f):
            if isinstance(s, ast.For) and isinstance(s.iter, ast.Name) and s.iter.id in lists and not any(isinstance(x, ast.Name) and x.id == s.iter.id for b in s.body for x in ast.walk(b)):
                self.n += 1
                k = f'_vp_k{self.n}'; nm = s.iter.id
                s.body.insert(0, ast.Assign([s.target], ast.Subscript(ast.Name(nm, ast.Load()), ast.Name(k, ast.Load()), ast.Load())))
                s.target = ast.Name(k, ast.Store())
                s.iter = ast.Call(ast.Name('range', ast.Load()), [ast.Call(ast.Name('len', ast.Load()), [ast.Name(nm, ast.Load())], [])], [])
        return f

TS = dict(rename=Rename, ret=Ret, invert=Invert, inor=InOr, fstr=FStr, annot=Annot, whiletrue=WhileTrue, aug=Aug, comp=Comp, enum=Enum, nest=Nest, tern=Tern,
          helper=Helper, guard=Guard, swap=Swap, noop=Noop, testvar=TestVar, extract=Extract, forwhile=ForWhile, getif=GetIf, foridx=ForIdx)

def main():
    names = sys.argv[1].split(','); out = sys.argv[2]
    shutil.rmtree(out, ignore_errors=True)
    shutil.copytree('/repo', out, symlinks=True)
    tot = {}
    for d, _, fs in os.walk(out + '/converter21'):
        for f in fs:
            if f.endswith('.py'):
                p = os.path.join(d, f)
                t = ast.parse(open(p).read())
                for nm in names:
                    T = TS[nm](); t = T.visit(t); ast.fix_missing_locations(t); tot[nm] = tot.get(nm, 0) + T.n
                open(p, 'w').write(ast.unparse(t) + '\n')
    print(tot)

if __name__ == '__main__':
    main()
