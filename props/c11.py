"""C11: no input makes a conversion loop forever or run off the end of its data."""
from __future__ import annotations
import ast
from sa.core import repo
from sa import progress

LEVEL = 'other'
EXPLANATION = ('Every while loop, every for loop over a collection its body may grow and every recursive call of the package is analysed '
               'on all its control-flow paths; a path back to the loop head on which nothing the exit condition depends on has changed is reported.')


def run(rep):
    R = repo()
    P = progress.Program(R)
    every = [(f, w) for f in R.functions for w in progress.loops(f.node)]
    loops = [(f, w, progress.Loop(f, w, P)) for f, w in every]
    rep.analysed['while loops'] = len(loops)
    rep.analysed['functions'] = len(R.functions)
    for f in R.functions:
        rep.visited.add(f.qual)

    def name(f, w):
        return f'{f.qual}: while {ast.unparse(w.test)[:80]}'

    def at(f, w):
        return f'{f.where}:{w.lineno}'

    def stuck():
        for f, w, L in loops:
            if L.opaque:
                rep.unsure(name(f, w), 'the body calls a nested function')
                continue
            if L.infinite and not L.state:
                # nothing guards the exits: either it leaves on the first pass or it is meant to run until an exception
                ex = any(isinstance(x, (ast.Break, ast.Return, ast.Raise, ast.Yield)) for s in w.body for x in L.walk(s))
                rep.expect(ex, name(f, w), at(f, w), 'nothing in this loop leaves it')
                continue
            bad = L.stuck()
            if bad and L.flag and L.infinite:
                rep.unsure(name(f, w), 'driven by a flag')
                continue
            what = ', '.join(sorted(L.carried)) or 'anything the condition reads'
            rep.expect(not bad, name(f, w), at(f, w), f'there is a path back to the head of the loop on which {what} has not changed')
    rep.family('loop-progress', 'on every path back to the head of a while loop something its exit depends on has changed', stuck, 80)

    def direction():
        for f, w, L in loops:
            v = L.wrong_way()
            rep.expect(v is None, name(f, w), at(f, w), f'{v} moves away from its bound')
    rep.family('loop-direction', 'the counter of a loop moves towards the bound that ends the loop', direction, 80)

    def clobber():
        for f, w, L in loops:
            c = L.clobbered()
            rep.expect(c is None, name(f, w), f'{f.where}:{c[1].lineno if c else w.lineno}',
                       f'{c[0] if c else ""} counts this loop and is used as the variable of an inner for loop, which sends the loop back or ahead')
    rep.family('loop-counter', 'the counter of a loop is not overwritten by a loop inside it', clobber, 80)

    def walking():
        for f, w, L in loops:
            for b, axes in progress.ways(L).items():
                for ax, d in axes.items():
                    if 'next' in d and 'previous' in d:
                        rep.bad(f'{name(f, w)}: {b}', f'{f.where}:{list(d.values())[-1].lineno}',
                                f'{b} is moved forward on one path and backward on another, so it can go to and fro for ever')
                    else:
                        rep.ok(f'{name(f, w)}: {b} {ax} {"/".join(d)}')
    rep.family('walk-direction', 'a walk along linked tokens or groups goes one way on all paths', walking, 40)

    def grow():
        n = 0
        for f in R.functions:
            fors = [x for x in ast.walk(f.node) if isinstance(x, ast.For)]
            found = {id(a): c for a, c in progress.growing(f.node)}
            for x in fors:
                c = found.get(id(x))
                if c is not None:
                    rep.bad(f'{f.qual}: for {ast.unparse(x.target)} in {ast.unparse(x.iter)[:60]}', f'{f.where}:{c.lineno}',
                            f'{ast.unparse(c)[:80]} lengthens what the loop walks over')
                else:
                    rep.ok(f'{f.qual}: for {ast.unparse(x.target)} in {ast.unparse(x.iter)[:60]}')
                n += 1
    rep.family('walk-finite', 'no for loop adds to the collection it walks over', grow, 300)

    def recursion():
        for f in R.functions:
            for n, same in progress.same_recursion(f):
                rep.expect(not same, f'{f.qual}: {ast.unparse(n)[:80]}', f'{f.where}:{n.lineno}', 'calls itself with the arguments it was called with')
    rep.family('recursion', 'a function never calls itself with unchanged arguments', recursion, 15)

    def ends():
        for f, w, L in loops:
            u = progress.unbounded_index(L)
            rep.expect(u is None, name(f, w), at(f, w), f'{u and ast.unparse(u[1])} is read with nothing to stop {u and u[0]} at the end')
    rep.family('loop-end', 'a loop condition that indexes with an advancing cursor bounds the cursor first', ends, 80)
