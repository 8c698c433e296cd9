"""Source model: parses (never imports) the repository and the installed music21 sources."""
from __future__ import annotations
import ast
import os
import sys
import glob
import functools

REPO = os.environ.get('VP_REPO', '/repo')
PKG = 'converter21'


def _site_packages() -> str | None:
    for pat in ('/opt/venv/lib/python3*/site-packages', '/usr/lib/python3/dist-packages',
                '/usr/local/lib/python3*/dist-packages', '/opt/veriftools/pyvenv/lib/python3*/site-packages'):
        for p in sorted(glob.glob(pat)):
            if os.path.isdir(os.path.join(p, 'music21')):
                return p
    return None


SITE = _site_packages()


class AnalysisError(Exception):
    """An anchor vanished or the analysis cannot give an answer."""


class ModuleInfo:
    def __init__(self, name: str, path: str, ext: bool):
        self.name = name
        self.path = path
        self.ext = ext
        with open(path, encoding='utf-8', errors='replace') as f:
            self.src = f.read()
        self.tree = ast.parse(self.src, filename=path)
        self.is_pkg = os.path.basename(path) == '__init__.py'
        self._bind()

    @property
    def rel(self) -> str:
        r = self.__dict__.get('_rel')
        if r is None:
            r = self.__dict__['_rel'] = os.path.relpath(self.path, REPO if not self.ext else SITE or '/')
        return r

    def _bind(self) -> None:
        """module-level bindings: name -> list of statements (last wins)"""
        self.bindings: dict[str, list] = {}

        def visit(stmts):
            for s in stmts:
                if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                    self.bindings.setdefault(s.name, []).append(s)
                elif isinstance(s, ast.Import):
                    for a in s.names:
                        self.bindings.setdefault(a.asname or a.name.split('.')[0], []).append((s, a))
                elif isinstance(s, ast.ImportFrom):
                    for a in s.names:
                        if a.name == '*':
                            self.bindings.setdefault('*', []).append((s, a))
                        else:
                            self.bindings.setdefault(a.asname or a.name, []).append((s, a))
                elif isinstance(s, ast.Assign):
                    for tg in s.targets:
                        for n in ast.walk(tg):
                            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                                self.bindings.setdefault(n.id, []).append(s)
                elif isinstance(s, ast.AnnAssign):
                    if isinstance(s.target, ast.Name) and s.value is not None:
                        self.bindings.setdefault(s.target.id, []).append(s)
                elif isinstance(s, ast.AugAssign):
                    if isinstance(s.target, ast.Name):
                        self.bindings.setdefault(s.target.id, []).append(s)
                elif isinstance(s, ast.If):
                    visit(s.orelse)
                    if not _is_type_checking(s.test):
                        visit(s.body)
                elif isinstance(s, ast.Try):
                    for h in s.handlers:
                        visit(h.body)
                    visit(s.body)
                    visit(s.orelse)
                elif isinstance(s, ast.With):
                    visit(s.body)
        visit(self.tree.body)


def _is_type_checking(test) -> bool:
    return (isinstance(test, ast.Attribute) and test.attr == 'TYPE_CHECKING') or \
        (isinstance(test, ast.Name) and test.id == 'TYPE_CHECKING')


class Fn:
    """A function or method definition."""
    def __init__(self, mod: ModuleInfo, node, cls: 'Cls | None', qual: str, outer: 'Fn | None' = None):
        self.mod = mod
        self.node = node
        self.cls = cls
        self.qual = qual
        self.outer = outer
        self.name = node.name

    @property
    def where(self) -> str:
        return f'{self.mod.rel}:{self.qual}'

    @property
    def decorators(self) -> list[str]:
        out = []
        for d in self.node.decorator_list:
            try:
                out.append(ast.unparse(d))
            except Exception:
                out.append('?')
        return out

    @property
    def is_static(self) -> bool:
        return 'staticmethod' in self.decorators

    @property
    def is_property(self) -> bool:
        return any(d in ('property', 'functools.cached_property') for d in self.decorators)

    @property
    def is_setter(self) -> bool:
        return any(d.endswith('.setter') for d in self.decorators)

    def params(self) -> list[str]:
        a = self.node.args
        return [x.arg for x in a.posonlyargs + a.args]

    def __repr__(self):
        return f'<Fn {self.where}>'


class Cls:
    def __init__(self, mod: ModuleInfo, node: ast.ClassDef, qual: str):
        self.mod = mod
        self.node = node
        self.qual = qual
        self.name = node.name
        self.methods: dict[str, Fn] = {}
        self.setters: dict[str, Fn] = {}
        self.assigns: dict[str, list] = {}


class Repo:
    """All non-test modules of the package under analysis."""
    def __init__(self, root: str = REPO):
        self.root = root
        self.modules: dict[str, ModuleInfo] = {}
        self.ext: dict[str, ModuleInfo | None] = {}
        base = os.path.join(root, PKG)
        if not os.path.isdir(base):
            raise AnalysisError(f'package directory {base} not found')
        for dp, dn, fn in os.walk(base):
            dn[:] = [d for d in sorted(dn) if d not in ('__pycache__', 'tests', 'test')]
            for f in sorted(fn):
                if not f.endswith('.py'):
                    continue
                if f.startswith('test_') or f.endswith('_test.py') or f == 'conftest.py':
                    continue
                path = os.path.join(dp, f)
                relp = os.path.relpath(path, root)
                name = relp[:-3].replace(os.sep, '.')
                if name.endswith('.__init__'):
                    name = name[:-9]
                self.modules[name] = ModuleInfo(name, path, False)
        self.functions: list[Fn] = []
        self.classes: dict[str, list[Cls]] = {}
        self.by_name: dict[str, list[Fn]] = {}
        for m in self.modules.values():
            self._index(m, m.tree.body, None, '', None)

    def _index(self, m, body, cls, prefix, outer):
        for s in body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                q = prefix + s.name
                fn = Fn(m, s, cls, q, outer)
                self.functions.append(fn)
                self.by_name.setdefault(s.name, []).append(fn)
                if cls is not None and outer is None:
                    if fn.is_setter:
                        cls.setters[s.name] = fn
                    else:
                        cls.methods[s.name] = fn
                self._index_nested(m, s.body, cls, q + '.', fn)
            elif isinstance(s, ast.ClassDef):
                q = prefix + s.name
                c = Cls(m, s, q)
                self.classes.setdefault(s.name, []).append(c)
                for x in s.body:
                    if isinstance(x, ast.Assign):
                        for tg in x.targets:
                            if isinstance(tg, ast.Name):
                                c.assigns.setdefault(tg.id, []).append(x)
                    elif isinstance(x, ast.AnnAssign) and isinstance(x.target, ast.Name):
                        c.assigns.setdefault(x.target.id, []).append(x)
                self._index(m, s.body, c, q + '.', None)
            elif isinstance(s, (ast.If, ast.Try, ast.With)):
                for fld in ('body', 'orelse', 'finalbody'):
                    self._index(m, getattr(s, fld, []) or [], cls, prefix, outer)

    def _index_nested(self, m, body, cls, prefix, outer):
        for s in body:
            for n in ast.walk(s):
                if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    fn = Fn(m, n, cls, prefix + n.name, outer)
                    self.functions.append(fn)
                    self.by_name.setdefault(n.name, []).append(fn)

    # ---- lookups -------------------------------------------------------
    def cls(self, name: str, must: bool = True) -> Cls | None:
        c = self.classes.get(name)
        if not c:
            if must:
                raise AnalysisError(f'class {name} not found in the package')
            return None
        return c[0]

    def method(self, cname: str, mname: str, must: bool = True) -> Fn | None:
        for c in self.classes.get(cname, []):
            if mname in c.methods:
                return c.methods[mname]
        if must:
            raise AnalysisError(f'{cname}.{mname} not found in the package')
        return None

    def module_of(self, name: str) -> ModuleInfo | None:
        if name in self.modules:
            return self.modules[name]
        if name in self.ext:
            return self.ext[name]
        mi = None
        if SITE and (name == 'music21' or name.startswith('music21.')):
            p = os.path.join(SITE, *name.split('.'))
            for cand in (p + '.py', os.path.join(p, '__init__.py')):
                if os.path.isfile(cand):
                    try:
                        mi = ModuleInfo(name, cand, True)
                    except SyntaxError:
                        mi = None
                    break
        self.ext[name] = mi
        return mi

    def n_functions(self) -> int:
        return len(self.functions)


@functools.lru_cache(maxsize=1)
def repo() -> Repo:
    return Repo()


# ------------------------------------------------------------------ helpers
def walk_fn(node, nested: bool = False):
    """Walk a function body without descending into nested defs/classes/lambdas."""
    stack = list(ast.iter_child_nodes(node))
    while stack:
        n = stack.pop()
        yield n
        if not nested and isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda)):
            continue
        stack.extend(ast.iter_child_nodes(n))


def dotted(node) -> str | None:
    """a.b.c -> 'a.b.c' (None if not a pure dotted chain)"""
    parts = []
    while isinstance(node, ast.Attribute):
        parts.append(node.attr)
        node = node.value
    if isinstance(node, ast.Name):
        parts.append(node.id)
        return '.'.join(reversed(parts))
    return None


def is_type_checking(test) -> bool:
    return _is_type_checking(test)
