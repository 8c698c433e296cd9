"""Shared helpers for rules that constant-propagate converter code over a finite vocabulary."""
from __future__ import annotations
import os
from fractions import Fraction
from sa.absint import (Interp, Obj, Unk, AList, ADict, ASet, EnumMember, ClassRef, FuncRef, Budget, ARaise, Ext,
                       Native, BoundM, Cut)
from sa.core import repo, AnalysisError
from sa import core


def new_ip(**kw) -> Interp:
    kw.setdefault('max_paths', 200)
    kw.setdefault('max_steps', 60000)
    ip = Interp(**kw)
    ip.models['music21.duration.convertTypeToQuarterLength'] = _type_to_ql
    ip.models['music21.duration.convertQuarterLengthToType'] = _ql_to_type
    return ip


M21_TYPES = {'duplex-maxima': 64, 'maxima': 32, 'longa': 16, 'breve': 8, 'whole': 4, 'half': 2, 'quarter': 1,
             'eighth': Fraction(1, 2), '16th': Fraction(1, 4), '32nd': Fraction(1, 8), '64th': Fraction(1, 16),
             '128th': Fraction(1, 32), '256th': Fraction(1, 64), '512th': Fraction(1, 128), '1024th': Fraction(1, 256),
             '2048th': Fraction(1, 512), 'zero': 0}


def _type_to_ql(ip, args, kw):
    t = ip.deref(args[0]) if args else None
    if isinstance(t, str):
        dots = ip.deref(args[1]) if len(args) > 1 else ip.deref(kw.get('dots', 0))
        if len(args) > 2 or set(kw) - {'dots'} or not isinstance(dots, int):
            return Unk('typeql')
        if t in M21_TYPES:
            return float(M21_TYPES[t] * (2 - Fraction(1, 2 ** dots)))
        ip.raise_('DurationException')
    return Unk('typeql')


def _ql_to_type(ip, args, kw):
    q = ip.deref(args[0]) if args else None
    if isinstance(q, (int, float, Fraction)):
        for k, v in M21_TYPES.items():
            if v == q:
                return k
        ip.raise_('DurationException')
    return Unk('qltype')


def mk(ip, cname, closed=False, **attrs):
    """An abstract object of class cname with the given known attributes (others are unknown)."""
    o = Obj(ip.cls(cname), dict(attrs))
    if closed:
        o.open = False
    return o


def model(ip, cname, meth, fn):
    """Replace a repository function by a model (its own rules decide it)."""
    ip.models[ip.fn(cname, meth).qual] = fn


def conc(v):
    """Abstract value -> plain Python value if fully known, else Unknown marker."""
    if isinstance(v, AList):
        if v.open:
            return UNKNOWN
        out = [conc(x) for x in v.v]
        return UNKNOWN if any(x is UNKNOWN for x in out) else out
    if isinstance(v, tuple):
        out = tuple(conc(x) for x in v)
        return UNKNOWN if any(x is UNKNOWN for x in out) else out
    if isinstance(v, Unk):
        return UNKNOWN
    return v


class _U:
    def __repr__(self):
        return 'UNKNOWN'


UNKNOWN = _U()


def outs(ip, thunk):
    """Distinct outcomes: list of ('return', value) / ('raise', name); None when not decided."""
    def guarded():
        try:
            return thunk()
        except (TypeError, AttributeError, IndexError, KeyError, ValueError, AssertionError):
            if os.environ.get('VP_DEBUG2'):
                import traceback
                traceback.print_exc()
            raise Cut()
    try:
        os_ = ip.explore(guarded)
    except Budget:
        return None
    res = []
    for o in os_:
        if o.kind == 'cut':
            return None
        v = ('return', conc(o.value)) if o.kind == 'return' else ('raise', o.value.name)
        if v not in res:
            res.append(v)
    return res


def rets(ip, thunk):
    """The distinct return values, or None when a path is undecided; raises show up as ('raise', name)."""
    r = outs(ip, thunk)
    if r is None:
        return None
    return r


def only(ip, thunk):
    """The single outcome, or None if undecided/several."""
    r = outs(ip, thunk)
    if r is None or len(r) != 1:
        return None
    if r[0][0] == 'return' and r[0][1] is UNKNOWN:
        return None
    return r[0]


def frac(x):
    if isinstance(x, bool) or x is None:
        return None
    if isinstance(x, (int, float, Fraction)):
        return Fraction(x)
    return None


def judge(rep, ip, instance, where, thunk, want, show=None, ok_raises=()):
    """Every partition's result must satisfy want(value); unknown results are recorded as undecided."""
    r = outs(ip, thunk)
    if r is None:
        rep.unsure(instance, 'bound reached')
        return
    bad = [x for x in r if x[0] == 'return' and x[1] is not UNKNOWN and not want(x[1])]
    bad += [x for x in r if x[0] == 'raise' and x[1] not in ok_raises]
    unk = [x for x in r if x[0] == 'return' and x[1] is UNKNOWN]
    if bad and not unk and len(bad) == len(r):
        k, v = bad[0]
        rep.bad(instance, where, f'{k} {v!r}' + (f'; {show}' if show else ''))
    elif unk or bad:
        rep.unsure(instance, f'{r[:3]}')
    else:
        rep.ok(instance)
