"""C08: exporting leaves the caller's score as it was: no bookkeeping stays behind, and nothing but a copy is rewritten."""
from __future__ import annotations
import ast
from props.common import *
from props.meih import MEI
from sa.core import walk_fn, dotted

EXPLANATION = (
    'Effect analysis of the export code (every attribute stored on, and every mutating call made on, an object that is neither '
    'created by the export nor one of its own helper objects must be a note-to-self that is registered for removal on every path), '
    'plus constant-propagation abstract interpretation of the clean-up, of the writers on every failure point, and an ownership '
    'analysis (caller-owned versus copied) of the score that the writers work on.')

PREFIX = ('mei_', 'humdrum_', 'xml_id')


def run(rep):
    registered(rep)
    effects(rep)
    cleanup(rep)
    failure(rep)
    ownership(rep)


# ------------------------------------------------------------------------------------------------ notes to self
EXPORT = ('converter21.mei.m21objectconvert', 'converter21.mei.meilayer', 'converter21.mei.meimeasure', 'converter21.mei.meimetadata',
          'converter21.mei.meiscore', 'converter21.mei.meistaff', 'converter21.mei.meiwriter')
REG = 'extendCustomM21Attributes'


class FnView:
    """Structured view of one function: statement parents, aliases, constant lists."""
    def __init__(self, f):
        self.f = f
        self.parent = {}
        self.alias = {}
        self.consts = {}
        counts = {}
        for n in walk_fn(f.node, nested=True):
            for c in ast.iter_child_nodes(n):
                self.parent[id(c)] = n
        for c in ast.iter_child_nodes(f.node):
            self.parent[id(c)] = f.node
        for n in walk_fn(f.node):
            tgts = n.targets if isinstance(n, ast.Assign) else [n.target] if isinstance(n, ast.AnnAssign) and n.value is not None else []
            for t in tgts:
                if isinstance(t, ast.Name):
                    counts[t.id] = counts.get(t.id, 0) + 1
                    if isinstance(n.value, ast.Name):
                        self.alias[t.id] = n.value.id
                    elif isinstance(n.value, (ast.List, ast.Tuple, ast.Constant)):
                        self.consts[t.id] = n.value
            for t in ([n.target] if isinstance(n, (ast.For, ast.comprehension)) else []):
                if isinstance(t, ast.Name) and isinstance(n.iter, (ast.List, ast.Tuple)):
                    self.consts[t.id] = n.iter
        self.alias = {k: v for k, v in self.alias.items() if counts.get(k) == 1}

    def canon(self, e):
        s = ast.unparse(e)
        seen = set()
        while s in self.alias and s not in seen:
            seen.add(s)
            s = self.alias[s]
        return s

    def names(self, e):
        """constant strings an expression may denote, None when unknown"""
        if isinstance(e, ast.Constant) and isinstance(e.value, str):
            return {e.value}
        if isinstance(e, (ast.List, ast.Tuple, ast.Set)):
            out = set()
            for x in e.elts:
                n = self.names(x)
                if n is None:
                    return None
                out |= n
            return out
        if isinstance(e, ast.Name) and e.id in self.consts:
            return self.names(self.consts[e.id])
        if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Add):
            a, b = self.names(e.left), self.names(e.right)
            return None if a is None or b is None else a | b
        return None


def param_names(f):
    a = f.node.args
    return [x.arg for x in a.posonlyargs + a.args]


def registered(rep):
    def go():
        R = repo()
        fns = [f for f in R.functions if f.mod.name.startswith('converter21.') and
               (f.mod.name in EXPORT or f.name == 'write' or 'M21Utilities' in f.qual)]
        byname = {}
        for f in R.functions:
            byname.setdefault(f.name, []).append(f)
        temp = temporary_classes(R)
        for f in fns:
            if f.name in ('assureXmlId', 'assureXmlIdAndId'):
                continue        # decided by the clean-up rule
            v = FnView(f)
            k = 0
            for n in sorted((x for x in walk_fn(f.node) if isinstance(x, (ast.stmt, ast.Expr))), key=lambda x: x.lineno):
                for obj, name in custom_stores(n, v):
                    k += 1
                    inst = f'{f.qual}: {name} #{k}'
                    tmp = temporary(v, n, obj, temp)
                    if tmp:
                        rep.ok(inst)
                        continue
                    r = is_registered(v, n, obj, name, byname)
                    if r not in (True, None):
                        r = by_callers(R, v, obj, name, byname, r, temp)
                    if tmp is None and r is not True:
                        r = None
                    if r is True:
                        rep.ok(inst)
                    elif r is None:
                        rep.unsure(inst, 'not all names are constants')
                    else:
                        rep.bad(inst, f'{f.where}:{n.lineno}', f'{ast.unparse(obj)}.{name} is set but {r}')
    rep.family('notes-to-self', 'every bookkeeping attribute that the export puts on an object of the score is registered for removal, '
               'for that object and under that name, on every path', go, 15)


def by_callers(R, v, obj, name, byname, why, temp):
    """the attribute is put on a parameter and every caller registers what it passed"""
    f = v.f
    if f.outer is not None:
        return None
    want = v.canon(obj)
    ps = param_names(f)
    if want not in ps:
        return why
    i = ps.index(want) - (1 if f.cls is not None and not f.is_static else 0)
    n = 0
    for g in R.functions:
        for st in walk_fn(g.node):
            if not isinstance(st, (ast.Expr, ast.Assign, ast.AnnAssign, ast.Return, ast.If, ast.For, ast.While, ast.AugAssign)):
                continue
            hdr = st.test if isinstance(st, (ast.If, ast.While)) else st.iter if isinstance(st, ast.For) else st
            for c in ast.walk(hdr):
                if isinstance(c, ast.Call) and (c.func.attr if isinstance(c.func, ast.Attribute) else getattr(c.func, 'id', '')) == f.name:
                    arg = next((k.value for k in c.keywords if k.arg == want), c.args[i] if 0 <= i < len(c.args) else None)
                    if arg is None:
                        return None
                    n += 1
                    gv = FnView(g)
                    tmp = temporary(gv, st, arg, temp)
                    r = True if tmp else is_registered(gv, st, arg, name, byname)
                    if r is not True and tmp is None:
                        r = None
                    if r is not True:
                        return why if r is not None else None
    return True if n else why


def custom_stores(n, v):
    """(object expr, attribute name) pairs directly stored by statement n"""
    if isinstance(n, (ast.Assign, ast.AnnAssign, ast.AugAssign)):
        for t in (n.targets if isinstance(n, ast.Assign) else [n.target]):
            for x in ([t] if not isinstance(t, (ast.Tuple, ast.List)) else t.elts):
                if isinstance(x, ast.Attribute) and x.attr.startswith(PREFIX):
                    yield x.value, x.attr
    elif isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and isinstance(n.value.func, ast.Name) \
            and n.value.func.id == 'setattr' and len(n.value.args) == 3:
        names = v.names(n.value.args[1])
        for nm in names or ():
            if nm.startswith(PREFIX):
                yield n.value.args[0], nm


def temporary_classes(R):
    out = {'M21TemporarySpanner'}
    for _ in range(4):
        for c in (x for cs in R.classes.values() for x in cs):
            if any((dotted(b) or '').split('.')[-1] in out for b in c.node.bases):
                out.add(c.node.name)
    return out


def temporary(v, stmt, obj, temp):
    """the object is a temporary spanner (deleted as a whole): by annotation or by an enclosing isinstance test"""
    name = v.canon(obj)
    a = v.f.node.args
    for p in a.posonlyargs + a.args + a.kwonlyargs:
        if p.arg == name and p.annotation is not None:
            if only_temp(p.annotation, temp):
                return True
    for n in walk_fn(v.f.node):
        if isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and n.target.id == name and only_temp(n.annotation, temp):
            return True
    assigned = {}
    for n in walk_fn(v.f.node):
        if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
            assigned.setdefault(n.targets[0].id, []).append(n.value)

    def says(test, seen=()):
        """the test looks at whether the object is a temporary spanner"""
        for t in ast.walk(test):
            if isinstance(t, ast.Call) and isinstance(t.func, ast.Name) and t.func.id == 'isinstance' and len(t.args) == 2 \
                    and v.canon(t.args[0]) == name:
                cl = t.args[1].elts if isinstance(t.args[1], ast.Tuple) else [t.args[1]]
                if all((dotted(c) or '').split('.')[-1] in temp for c in cl):
                    return True
            if isinstance(t, ast.Name) and t.id not in seen and any(says(e, seen + (t.id,)) for e in assigned.get(t.id, [])):
                return True
        return False
    cur, par = stmt, v.parent.get(id(stmt))
    while par is not None and par is not v.f.node:
        if isinstance(par, (ast.If, ast.While)) and says(par.test):
            return True
        cur, par = par, v.parent.get(id(par))
    # a guard before the statement, or a test whose outcome decides elsewhere: not known to be an object of the score
    if any(isinstance(n, (ast.If, ast.IfExp, ast.While)) and says(n.test) for n in walk_fn(v.f.node)):
        return None
    return False


def only_temp(ann, temp):
    s = ast.unparse(ann).replace("'", '')
    parts = [p.strip() for p in s.split('|') if p.strip() != 'None']
    return bool(parts) and all(p.split('.')[-1] in temp for p in parts)


def reg_calls(stmt, v, byname, depth=0):
    """(object canon, names) registered or removed unconditionally by this simple statement"""
    if isinstance(stmt, ast.Delete):
        for t in stmt.targets:
            if isinstance(t, ast.Attribute):
                yield v.canon(t.value), {t.attr}
        return
    if not isinstance(stmt, (ast.Expr, ast.Assign, ast.AnnAssign, ast.Return)) or getattr(stmt, 'value', None) is None:
        return
    for c in ast.walk(stmt.value):
        if not isinstance(c, ast.Call):
            continue
        fname = c.func.attr if isinstance(c.func, ast.Attribute) else c.func.id if isinstance(c.func, ast.Name) else ''
        args = list(c.args) + [k.value for k in c.keywords]
        if fname == REG:
            kw = {k.arg: k.value for k in c.keywords}
            obj = c.args[1] if len(c.args) > 1 else kw.get('obj')
            nm = c.args[2] if len(c.args) > 2 else kw.get('newAttrs')
            if obj is not None and nm is not None:
                yield v.canon(obj), v.names(nm)
        elif fname == 'delattr' and len(args) == 2:
            yield v.canon(args[0]), v.names(args[1])
        elif depth < 3:
            for g in byname.get(fname, [])[:4]:
                if not any(isinstance(x, ast.Attribute) and x.attr in (REG,) or isinstance(x, ast.Name) and x.id == REG
                           for x in walk_fn(g.node)):
                    continue
                gv = FnView(g)
                ps = param_names(g)
                if g.cls is not None and not g.is_static and ps:
                    ps = ps[1:]
                amap = {}
                for p, a in zip(ps, c.args):
                    amap[p] = a
                for k in c.keywords:
                    if k.arg:
                        amap[k.arg] = k.value
                for st in g.node.body:
                    for o, nms in list(reg_calls(st, gv, byname, depth + 1)):
                        if o in amap:
                            if nms is None:
                                # names handed in by the caller
                                nms = set()
                                for a in amap.values():
                                    nms |= v.names(a) or set()
                            yield v.canon(amap[o]), nms


def blocks_of(par):
    for fld in ('body', 'orelse', 'finalbody'):
        b = getattr(par, fld, None)
        if isinstance(b, list):
            yield b
    for h in getattr(par, 'handlers', []) or []:
        yield h.body


def sure(stmt, v, byname):
    """registrations made on every path through stmt"""
    if isinstance(stmt, ast.If):
        a = set()
        for s in stmt.body:
            a |= sure(s, v, byname)
        b = set()
        for s in stmt.orelse:
            b |= sure(s, v, byname)
        return a & b
    if isinstance(stmt, (ast.With,)):
        out = set()
        for s in stmt.body:
            out |= sure(s, v, byname)
        return out
    if isinstance(stmt, ast.Try):
        out = set()
        for s in stmt.body + stmt.finalbody:
            out |= sure(s, v, byname)
        return out
    if isinstance(stmt, ast.For) and isinstance(stmt.iter, (ast.Tuple, ast.List)) and stmt.iter.elts:
        out = set()
        for s in stmt.body:
            out |= sure(s, v, byname)
        return out
    out = set()
    for o, names in reg_calls(stmt, v, byname):
        for nm in (names if names is not None else {'?'}):
            out.add((o, nm))
    return out


def leaves(stmt):
    return isinstance(stmt, (ast.Return, ast.Raise, ast.Continue, ast.Break))


def may_leave(stmt):
    """some path through the compound statement leaves the block"""
    return any(leaves(n) for n in ast.walk(stmt)) if isinstance(stmt, (ast.If, ast.Try, ast.With)) else \
        any(isinstance(n, (ast.Return,)) for n in ast.walk(stmt))


def is_registered(v, stmt, obj, name, byname):
    want = v.canon(obj)
    seen_unknown = False
    other = None

    def hit(s):
        nonlocal seen_unknown, other
        r = sure(s, v, byname)
        if (want, name) in r:
            return True
        if (want, '?') in r:
            seen_unknown = True
        for o, nm in r:
            if nm == name:
                other = o
        return False
    cur, par = stmt, v.parent.get(id(stmt))
    while par is not None:
        for b in blocks_of(par):
            if cur in b:
                i = b.index(cur)
                if any(hit(s) for s in b[:i]):
                    return True
                for s in b[i:] if cur is stmt else b[i + 1:]:
                    if hit(s):
                        return True
                    if s is not stmt and (leaves(s) or may_leave(s)):
                        return None if seen_unknown else (f'{other} is registered instead' if other else
                                                          f'a path leaves the function before it is registered')
        if par is v.f.node:
            break
        if isinstance(par, (ast.For, ast.While)) and not seen_unknown:
            # the next iteration may rebind the object
            tg = ast.unparse(par.target) if isinstance(par, ast.For) else ''
            if tg == want:
                return f'{other} is registered instead' if other else 'it is never registered for removal'
        cur, par = par, v.parent.get(id(par))
    if seen_unknown:
        return None
    return f'{other} is registered under that name instead' if other else 'it is never registered for removal'


# ------------------------------------------------------------------------------------------------ effects
MUTATORS = {'append', 'extend', 'insert', 'remove', 'pop', 'clear', 'sort', 'reverse', 'addSpannedElements', 'coreInsert', 'coreAppend',
            'replace', 'setElementOffset', 'addLyric', 'insertIntoNoteOrChord', 'makeNotation', 'makeRests', 'makeTies', 'makeBeams',
            'makeAccidentals', 'toSoundingPitch', 'toWrittenPitch', 'stripTies', 'quantize', 'fillRests', 'transpose', 'appendTuplet',
            'mergeAttributes', 'splitAtDurations', 'removeByClass', 'storeAtEnd', 'insertAndShift', 'setOffsetBySite', 'add', 'fill'}


def effects(rep):
    def go():
        R = repo()
        temp = temporary_classes(R)
        own = set(R.classes)
        for f in R.functions:
            if f.mod.name not in EXPORT:
                continue
            env = types(f, own, temp)
            ev = []
            for n in walk_fn(f.node):
                tg = n.targets if isinstance(n, (ast.Assign, ast.Delete)) else [n.target] if isinstance(n, (ast.AugAssign, ast.AnnAssign)) else []
                for t in tg:
                    for x in (t.elts if isinstance(t, (ast.Tuple, ast.List)) else [t]):
                        if isinstance(x, ast.Attribute) and not x.attr.startswith(PREFIX):
                            k = kind(x.value, env)
                            if k == 'm21':
                                ev.append((n.lineno, f'stores {ast.unparse(x)}'))
                        elif isinstance(x, ast.Subscript):
                            k = kind(x.value, env)
                            if k == 'm21':
                                ev.append((n.lineno, f'stores {ast.unparse(x)}'))
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUTATORS:
                    k = kind(n.func.value, env)
                    if k == 'm21':
                        inpl = [kw for kw in n.keywords if kw.arg == 'inPlace']
                        if n.func.attr in ('makeNotation', 'transpose', 'stripTies', 'makeRests', 'toSoundingPitch', 'toWrittenPitch',
                                           'sort', 'replace') and not (inpl and getattr(inpl[0].value, 'value', None) is True):
                            continue
                        if n.func.attr == 'append' and n.args and kind(n.args[0], env) == 'temp':
                            continue
                        if n.func.attr == 'remove' and n.args and kind(n.args[0], env) == 'temp':
                            continue
                        if n.func.attr == 'fill':
                            continue
                        if n.func.attr == 'remove' and f.name.startswith('deannotate'):
                            continue
                        ev.append((n.lineno, f'calls {ast.unparse(n)[:80]}'))
            if ev:
                rep.bad(f.qual, f'{f.where}:{ev[0][0]}', f'{ev[0][1]}, which changes the score that is being exported')
            else:
                rep.ok(f.qual)
    rep.family('no-other-effects', 'the MEI export stores and calls mutators only on objects it created itself', go, 80)


def types(f, own, temp):
    """name -> 'fresh' | 'm21' | 'own' | 'temp' | '?'  (flow-insensitive; several kinds give '?')"""
    env = {}

    def put(name, k):
        env[name] = k if env.get(name, k) == k else '?'

    def ann(a):
        s = ast.unparse(a).replace("'", '').replace('"', '')
        if only_temp(a, temp):
            return 'temp'
        core_ = [p.strip() for p in s.split('|') if p.strip() != 'None']
        if core_ and all(p.startswith(('m21.', 'music21.')) and '[' not in p.split('.')[-1][:0] for p in core_):
            return 'm21ann'
        return 'own'
    a = f.node.args
    for p in a.posonlyargs + a.args + a.kwonlyargs:
        if p.annotation is None:
            put(p.arg, 'own' if p.arg in ('self', 'cls') else '?')
        else:
            k = ann(p.annotation)
            put(p.arg, 'm21' if k == 'm21ann' else k)
    for n in walk_fn(f.node):
        if isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name):
            k = ann(n.annotation)
            if k == 'm21ann':
                k = value_kind(n.value, own, temp) if n.value is not None else None
                if k is None:
                    continue
            put(n.target.id, k)
        elif isinstance(n, ast.Assign):
            for t in n.targets:
                if isinstance(t, ast.Name):
                    put(t.id, value_kind(n.value, own, temp))
        elif isinstance(n, (ast.For, ast.comprehension)):
            for t in ast.walk(n.target):
                if isinstance(t, ast.Name):
                    s = ast.unparse(n.iter)
                    put(t.id, 'temp' if any(f'[{c}]' in s for c in temp) else 'elem')
        elif isinstance(n, (ast.With,)):
            for i in n.items:
                if isinstance(i.optional_vars, ast.Name):
                    put(i.optional_vars.id, 'own')
    # loop variables over collections of a music21 object are music21 objects
    for n in walk_fn(f.node):
        if isinstance(n, (ast.For,)) and isinstance(n.target, ast.Name) and env.get(n.target.id) == 'elem':
            it = n.iter
            while isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id in ('list', 'tuple', 'reversed', 'sorted') and it.args:
                it = it.args[0]
            env[n.target.id] = 'm21' if kind(it, env) == 'm21' or (isinstance(it, ast.Call) and isinstance(it.func, ast.Attribute)
                                                                  and kind(it.func.value, env) == 'm21') else '?'
    return env


def value_kind(v, own, temp):
    if isinstance(v, ast.Call):
        d = dotted(v.func) or ''
        last = d.split('.')[-1]
        if last in temp:
            return 'temp'
        if last in ('deepcopy', 'copy', 'list', 'dict', 'set', 'tuple', 'str', 'int', 'sorted') or last in own:
            return 'fresh'
        if d.startswith(('m21.', 'music21.')) and last[:1].isupper():
            return 'fresh'
        return '?'
    if isinstance(v, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp, ast.Tuple, ast.JoinedStr)):
        return 'fresh'
    if isinstance(v, ast.Constant):
        return 'fresh' if v.value is not None else 'none'
    return '?'


def kind(e, env):
    """ownership of the object an expression denotes"""
    if isinstance(e, ast.Name):
        return env.get(e.id, '?')
    if isinstance(e, ast.Attribute):
        if isinstance(e.value, ast.Name) and e.value.id == 'self':
            return 'm21' if e.attr.startswith('m21') or e.attr == '_m21Score' else '?'
        k = kind(e.value, env)
        return k if k in ('fresh', 'm21') else '?'
    if isinstance(e, ast.Subscript):
        k = kind(e.value, env)
        return k if k in ('m21',) else '?'
    return '?'


# ------------------------------------------------------------------------------------------------ clean-up
def m21_world(ip):
    M = MEI(ip)
    M.install()
    d = ip.deref
    ip.models['music21.note.minIdNumberToConsiderMemoryLocation'] = lambda *a: 100000000
    G = lambda c, **k: mk(ip, 'music21.' + c, id=1000, style=M.nstyle(), **k)
    n1, n2, n3 = G('note.Note'), G('note.Note'), G('note.Note')
    objs = dict(note=G('note.Note'), unpitched=G('note.Unpitched'), rest=G('note.Rest'), chord=G('chord.Chord', notes=(n1, n2)),
                percussion=G('percussion.PercussionChord', notes=(n3,)), clef=G('clef.TrebleClef'), key=G('key.KeySignature'),
                meter=G('meter.TimeSignature'), measure=G('stream.base.Measure'), voice=G('stream.base.Voice'),
                part=G('stream.base.Part'), dynamic=G('dynamics.Dynamic'), text=G('expressions.TextExpression'), slur=G('spanner.Slur'),
                harmony=G('harmony.ChordSymbol', notes=()))
    inner = dict(chordnote1=n1, chordnote2=n2, drum=n3)
    for o in list(objs.values()) + list(inner.values()):
        o.absent = {'xml_id'}
    return M, objs, inner


def cleanup(rep):
    ip = new_ip(max_steps=200000)
    M, objs, inner = m21_world(ip)
    d = ip.deref

    def stream(o):
        return AList(list(objs.values()))
    ip.method_models[('Score', 'recurse')] = lambda ip_, o, a, k: AList(list(objs.values()) + list(o.attrs['__temps__']))
    ip.method_models[('Score', '__getitem__')] = lambda ip_, o, a, k: AList(
        [x for x in o.attrs['__temps__'] if getattr(d(a[0]), 'short', '') in ('M21TemporarySpanner', x.cname)])
    ip.method_models[('Score', 'remove')] = lambda ip_, o, a, k: o.attrs['__temps__'].remove(d(a[0]))
    model(ip, 'M21Utilities', 'm21PedalMarksSupported', lambda ip_, a, k: False)
    every = dict(objs, **inner)

    def fresh():
        for o in every.values():
            o.attrs.pop('xml_id', None)
            for k in [k for k in o.attrs if k.startswith('mei_')]:
                o.attrs.pop(k)
        sc = mk(ip, 'music21.stream.base.Score', id=2000, __temps__=[])
        sc.absent = {'xml_id'}
        return sc

    def ids():
        for key, o in every.items():
            def rt():
                sc = fresh()
                ip.call(ip.fn('M21Utilities', 'assureAllXmlIds'), [sc], {})
                had = 'xml_id' in o.attrs
                ip.call(ip.fn('M21Utilities', 'removeAllXmlIds'), [sc], {})
                return had and 'xml_id' not in o.attrs
            judge(rep, ip, f'identifier of a {key}', 'M21Utilities.removeAllXmlIds', rt, lambda v: v is True)
    rep.family('identifiers', 'every kind of object that gets an identifier for the export loses it afterwards', ids, 16)

    NAMES = ['mei_a', 'mei_b', 'mei_c']

    def de():
        for writer, cls, scattr in (('MEI', 'MeiScore', 'm21Score'), ('Humdrum', 'HumdrumWriter', '_m21Score')):
            for key in ('note', 'chord', 'chordnote1', 'rest', 'clef', 'slur', 'measure'):
                for sel in ([0], [0, 1], [0, 1, 2]):
                    for twice in (False, True):
                        def rt():
                            sc = fresh()
                            w = mk(ip, cls, customM21AttrsToDelete=ADict({}), **{scattr: sc})
                            o, o2 = every[key], every['text']
                            at = w.attrs['customM21AttrsToDelete']
                            for x in (o, o2):
                                for nm in (NAMES[i] for i in sel):
                                    x.attrs[nm] = True
                                    ip.call(ip.fn('M21Utilities', 'extendCustomM21Attributes'), [at, x, AList([nm])], {})
                                    if twice:
                                        ip.call(ip.fn('M21Utilities', 'extendCustomM21Attributes'), [at, x, AList([nm])], {})
                            ip.call(ip.getattr(w, 'deannotateScore'), [], {})
                            return not any(nm in x.attrs for nm in NAMES for x in (o, o2))
                        judge(rep, ip, f'{writer} notes {[NAMES[i] for i in sel]} on a {key}, twice={twice}', f'{cls}.deannotateScore', rt,
                              lambda v: v is True)
        for names in (['M21BeamSpanner'], ['M21TupletSpanner'], ['M21TieSpanner'], ['M21BeamSpanner', 'M21TieSpanner', 'M21TupletSpanner'],
                      ['M21BeamSpanner'] * 3):
            def rt():
                sc = fresh()
                sc.attrs['__temps__'] = [mk(ip, c, id=3000 + i, style=M.nstyle()) for i, c in enumerate(names)]
                w = mk(ip, 'MeiScore', customM21AttrsToDelete=ADict({}), m21Score=sc)
                ip.call(ip.getattr(w, 'deannotateScore'), [], {})
                return sc.attrs['__temps__'] == []
            judge(rep, ip, f'temporary spanners {names}', 'MeiScore.deannotateScore', rt, lambda v: v is True)

        def rt():
            sc = fresh()
            ip.call(ip.fn('M21Utilities', 'assureAllXmlIds'), [sc], {})
            w = mk(ip, 'MeiScore', customM21AttrsToDelete=ADict({}), m21Score=sc)
            ip.call(ip.getattr(w, 'deannotateScore'), [], {})
            return not any('xml_id' in o.attrs for o in every.values())
        judge(rep, ip, 'identifiers after deannotation', 'MeiScore.deannotateScore', rt, lambda v: v is True)
    rep.family('clean-up', 'the clean-up removes every registered attribute, every temporary spanner and every identifier', de, 80)
    rep.use(ip)


# ------------------------------------------------------------------------------------------------ failures
def failure(rep):
    ip = new_ip(max_steps=200000)
    d = ip.deref
    log = []
    model(ip, 'M21Utilities', 'reportUnwritableScore', lambda ip_, a, k: '')
    model(ip, 'M21Utilities', 'adjustMusic21Behavior', lambda ip_, a, k: None)
    model(ip, 'M21Utilities', 'makeScoreFromObject', lambda ip_, a, k: d(a[0]))
    fail = [None]

    def point(name, value=None):
        def fn(ip_, *a):
            log.append(name)
            if fail[0] == name:
                ip.raise_('ValueError')
            return value
        return fn
    ip.ctor_models['MeiScore'] = lambda ip_, c, a, k: (log.append('annotate'), mk(ip, 'MeiScore', m21Score=a[0]))[1]
    ip.method_models[('MeiScore', 'makeRootElement')] = lambda ip_, o, a, k: point('build', mk(ip, 'music21.base.Music21Object'))(ip_)
    ip.method_models[('MeiScore', 'deannotateScore')] = lambda ip_, o, a, k: log.append('clean')
    for nm in ('xml.etree.ElementTree.indent', 'ElementTree.indent', 'indent'):
        ip.models[nm] = lambda ip_, a, k: point('indent')(ip_)

    ip.method_models[('Music21Object', 'write')] = lambda ip_, o, a, k: point('write')(ip_)

    def go():
        for f in (None, 'build', 'indent', 'write'):
            for mn in (False, True):
                for ver in ('4', '5', '5.0', '4.0.1', '3', ''):
                    def rt():
                        log.clear()
                        fail[0] = f
                        w = mk(ip, 'MeiWriter', makeNotation=mn, meiVersion=ver)
                        sc = mk(ip, 'music21.stream.base.Score')
                        ip.method_models[('Score', 'isWellFormedNotation')] = lambda *a: True
                        w.attrs['_m21Object'] = sc
                        fp = mk(ip, 'music21.base.Music21Object')
                        try:
                            ip.call(ip.getattr(w, 'write'), [fp], {})
                        except ARaise:
                            pass
                        if 'annotate' not in log:
                            return True
                        return 'clean' in log and log.index('clean') > max([i for i, x in enumerate(log) if x in ('annotate', 'build')])
                    judge(rep, ip, f'failure at {f}, makeNotation={mn}, version {ver!r}', 'MeiWriter.write', rt, lambda v: v is True)
    rep.family('clean-up-on-failure', 'the clean-up runs after the export ends, whether it succeeds or fails at any step', go, 24)
    rep.use(ip)


# ------------------------------------------------------------------------------------------------ ownership
def ownership(rep):
    ip = new_ip(max_steps=200000)
    d = ip.deref
    M = MEI(ip)
    M.install()
    bad = []
    model(ip, 'M21Utilities', 'adjustMusic21Behavior', lambda ip_, a, k: None)
    STREAMS = ('Stream', 'Score', 'Part', 'Measure', 'Voice')

    def owned(o):
        """the object is, or contains, something that belongs to the caller"""
        o = d(o)
        return isinstance(o, Obj) and (o.attrs.get('__caller__') is True or o.attrs.get('__holds__') is True)

    def copyof(o, shallow=False):
        o = d(o)
        c = Obj(o.cls, {k: v for k, v in o.attrs.items() if k not in ('__caller__', '__holds__')})
        c.open, c.absent = o.open, set(o.absent)
        if shallow and owned(o):
            c.attrs['__holds__'] = True
        return c

    def dc(ip_, a, k):
        v = d(a[0])
        return copyof(v) if isinstance(v, Obj) else v
    ip.models['copy.deepcopy'] = dc
    ip.models['deepcopy'] = dc
    ip.models['copy.copy'] = lambda ip_, a, k: copyof(a[0], True) if isinstance(d(a[0]), Obj) else d(a[0])

    def flag(o, what):
        if owned(o):
            bad.append(what)

    def kw(k, a, name, pos, default):
        return d(k[name]) if name in k else d(a[pos]) if len(a) > pos else default

    def mutating(name):
        def fn(ip_, o, a, k):
            if o.attrs.get('__caller__') is True:
                bad.append(name)
            for x in a:
                if owned(x):
                    o.attrs['__holds__'] = True
            return None
        return fn
    for c in STREAMS:
        for nm in ('append', 'insert', 'coreInsert', 'coreAppend', 'remove', 'replace'):
            ip.method_models[(c, nm)] = mutating(nm)

        def mn(ip_, o, a, k):
            if kw(k, a, 'inPlace', 9, False) is True:
                flag(o, 'makeNotation(inPlace=True)')
                return None
            return copyof(o)
        ip.method_models[(c, 'makeNotation')] = mn
        ip.method_models[(c, 'makeMeasures')] = lambda ip_, o, a, k: (flag(o, 'makeMeasures(inPlace=True)'), None)[1] \
            if kw(k, a, 'inPlace', 9, False) is True else copyof(o)
        ip.method_models[(c, 'isWellFormedNotation')] = lambda ip_, o, a, k: True
        ip.method_models[(c, 'coreCopyAsDerivation')] = lambda ip_, o, a, k: copyof(o, kw(k, a, 'deep', 2, True) is False)
        ip.method_models[(c, 'mergeAttributes')] = lambda ip_, o, a, k: flag(o, 'mergeAttributes')
        ip.method_models[(c, 'hasPartLikeStreams')] = lambda ip_, o, a, k: o.attrs.get('__parts__', False)
        ip.method_models[(c, 'contextSites')] = lambda ip_, o, a, k: AList([])
        for at in ('clef', 'metadata', 'timeSignature', 'elements', 'keySignature', 'id'):
            def st(ip_, o, a, k, at=at):
                if o.attrs.get('__caller__') is True:
                    bad.append(f'{at} = ...')
                if at == 'elements' and owned(a[0]):
                    o.attrs['__holds__'] = True
                o.attrs[at] = a[0]
            ip.method_models[(c, f'set:{at}')] = st
        ip.attr_models[(c, 'isFlat')] = lambda ip_, o: o.attrs.get('__flat__', False)
        sub = lambda ip_, o, a, k: mk(ip, 'music21.stream.base.Stream', __flat__=True, __sub__=o.attrs.get('__sub__'))
        for nm in ('getElementsByClass', 'getElementsByOffset', 'recurse'):
            ip.method_models[(c, nm)] = sub
        ip.method_models[(c, 'first')] = lambda ip_, o, a, k: o.attrs.get('__sub__')
        ip.method_models[(c, '__len__')] = lambda ip_, o, a, k: 0
        ip.method_models[(c, '__iter__')] = lambda ip_, o, a, k: AList([])
        ip.method_models[(c, '__getitem__')] = lambda ip_, o, a, k: AList([])
        ip.ctor_models[f'music21.stream.base.{c}'] = (lambda cc: lambda ip_, cl, a, k: mk(ip, f'music21.stream.base.{cc}', metadata=None))(c)
    for nm in ('note.Note', 'chord.Chord', 'note.Rest'):
        short = nm.split('.')[-1]
        for at in ('duration', 'pitch', 'quarterLength', 'tie', 'lyrics'):
            def st(ip_, o, a, k, at=at):
                if o.attrs.get('__caller__') is True:
                    bad.append(f'{at} = ...')
                if owned(a[0]):
                    o.attrs['__holds__'] = True
                o.attrs[at] = a[0]
            ip.method_models[(short, f'set:{at}')] = st
    ip.ctor_models['music21.note.Note'] = lambda ip_, c, a, k: mk(ip, 'music21.note.Note')
    ip.models['music21.clef.bestClef'] = lambda ip_, a, k: mk(ip, 'music21.clef.TrebleClef')
    ip.models['music21.stream.makeNotation.makeTupletBrackets'] = lambda ip_, a, k: flag(a[0], 'makeTupletBrackets(inPlace=True)') \
        if d(k.get('inPlace')) is True else None

    def kinds():
        yield 'score', mk(ip, 'music21.stream.base.Score', metadata=None)
        for flat in (True, False):
            yield f'part flat={flat}', mk(ip, 'music21.stream.base.Part', metadata=None, __flat__=flat)
        yield 'measure', mk(ip, 'music21.stream.base.Measure', metadata=None)
        yield 'voice', mk(ip, 'music21.stream.base.Voice', metadata=None)
        yield 'flat stream', mk(ip, 'music21.stream.base.Stream', metadata=None, __flat__=True)
        yield 'stream of parts', mk(ip, 'music21.stream.base.Stream', metadata=None, __parts__=True)
        yield 'stream of measures', mk(ip, 'music21.stream.base.Stream', metadata=None,
                                       __sub__=mk(ip, 'music21.stream.base.Measure', __flat__=True))
        yield 'odd stream', mk(ip, 'music21.stream.base.Stream', metadata=None, __sub__=None)
        for c in ('note.Note', 'chord.Chord', 'note.Rest', 'pitch.Pitch', 'duration.Duration', 'dynamics.Dynamic', 'meter.TimeSignature',
                  'clef.TrebleClef'):
            yield c, mk(ip, 'music21.' + c)

    def wraps():
        for key, o0 in kinds():
            def rt():
                bad.clear()
                o = copyof(o0)
                o.attrs['__caller__'] = True
                v = ip.call(ip.fn('M21Utilities', 'makeScoreFromObject'), [o], {})
                if bad:
                    return str(bad)
                return 'the result shares objects with the caller' if owned(v) else True
            judge(rep, ip, f'notating a {key}', 'M21Utilities.makeScoreFromObject', rt, lambda v: v is True)
    rep.family('notation-copies', 'making a well-formed score from what the caller passed leaves that object and its contents alone', wraps, 14)

    # the Humdrum writer rewrites the score (durations, transposition): it has to own it

    def hw():
        model(ip, 'M21Utilities', 'fixupComplexHiddenRests', lambda ip_, a, k: None)

        def seen(ip_, a, k):
            bad.append('fixed in place' if owned(a[0]) else 'ok')
            ip.raise_('StopIteration')
        model(ip, 'M21Utilities', 'fixupBadDurations', seen)
        for mn in (True, False):
            for key, o0 in kinds():
                if not mn and key != 'score':
                    continue

                def rt():
                    bad.clear()
                    o = copyof(o0)
                    o.attrs['__caller__'] = True
                    w = mk(ip, 'HumdrumWriter', makeNotation=mn)
                    w.attrs['_m21Object'] = o
                    try:
                        ip.call(ip.getattr(w, 'write'), [mk(ip, 'music21.base.Music21Object')], {})
                    except ARaise:
                        pass
                    return bad == ['ok'] or str(bad)
                judge(rep, ip, f'Humdrum export of a {key}, makeNotation={mn}', 'HumdrumWriter.write', rt, lambda v: v is True)
    rep.family('writer-owns-score', 'the Humdrum export, which rewrites the score, works on a copy that shares nothing with the caller', hw, 14)

    # functions that offer inPlace
    def flags():
        R = repo()
        ip2 = new_ip(max_steps=100000)
        MEI(ip2).install()
        touched = []
        for c in STREAMS:
            for nm in ('__iter__', '__getitem__', 'recurse', 'getElementsByClass'):
                ip2.method_models[(c, nm)] = lambda ip_, o, a, k: (touched.append(o), AList([]))[1]
            ip2.attr_models[(c, 'parts')] = lambda ip_, o: (touched.append(o), AList([]))[1]
        cp = lambda ip_, a, k: (lambda o: (o.attrs.update(__copy__=True), o)[1])(Obj(ip2.deref(a[0]).cls, dict(ip2.deref(a[0]).attrs)))
        ip2.models['copy.deepcopy'] = cp
        for f in R.functions:
            if f.cls is None or f.cls.node.name != 'M21Utilities' or 'inPlace' not in param_names(f):
                continue
            for flag_ in (False, True, None):
                def rt():
                    touched.clear()
                    o = mk(ip2, 'music21.stream.base.Score')
                    v = ip2.deref(ip2.call(ip2.fn('M21Utilities', f.name), [o], {} if flag_ is None else {'inPlace': flag_}))
                    if flag_:
                        return v is o and all(x is o for x in touched)
                    return isinstance(v, Obj) and v is not o and v.attrs.get('__copy__') is True and all(x is not o for x in touched)
                judge(rep, ip2, f'{f.name}(inPlace={flag_})', f.where, rt, lambda v: v is True)
        rep.use(ip2)
    rep.family('in-place-flag', 'a repair function changes its argument only when asked to work in place, and otherwise returns a changed copy',
               flags, 9)
    rep.use(ip)

