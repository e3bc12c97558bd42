"""Resolved program model of the acoular package, built from the source text only.

Nothing is imported from the analysed package: every fact comes from the syntax
trees of the files below ``<repo>/acoular``.
"""

import ast
import builtins
import hashlib
import os
import pathlib

from . import normal

REPO = pathlib.Path(os.environ.get('ACHECK_REPO', '/repo'))
PKG = 'acoular'


class AnalysisError(Exception):
    """The analysis lost its footing (an anchor vanished, a file is unreadable)."""


# --------------------------------------------------------------------------- small ast helpers
def dotted(node):
    """'a.b.c' for a Name/Attribute chain, else None."""
    parts = []
    while isinstance(node, ast.Attribute):
        parts.append(node.attr)
        node = node.value
    if isinstance(node, ast.Name):
        parts.append(node.id)
        return '.'.join(reversed(parts))
    return None


def const_str(node):
    return node.value if isinstance(node, ast.Constant) and isinstance(node.value, str) else None


def is_docstring(stmt):
    return isinstance(stmt, ast.Expr) and isinstance(stmt.value, ast.Constant)


def body_without_doc(fn):
    return [s for s in fn.body if not is_docstring(s)]


def walk_no_nested(node):
    """ast.walk that does not enter nested function/class/lambda bodies (the node itself excepted)."""
    todo = list(ast.iter_child_nodes(node))
    while todo:
        n = todo.pop(0)
        yield n
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda)):
            continue
        todo[0:0] = list(ast.iter_child_nodes(n))


def is_generator_fn(fn):
    return any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in walk_no_nested(fn))


class Func:
    """A function or method definition."""

    def __init__(self, module, node, cls=None, parent=None):
        self.module, self.node, self.cls, self.parent = module, node, cls, parent
        self.name = node.name
        a = node.args
        self.params = [x.arg for x in a.posonlyargs + a.args]
        self.kwonly = [x.arg for x in a.kwonlyargs]
        self.vararg = a.vararg.arg if a.vararg else None
        self.kwarg = a.kwarg.arg if a.kwarg else None
        self.decorators = node.decorator_list
        self.generator = is_generator_fn(node)

    @property
    def qual(self):
        pre = f'{self.cls.name}.' if self.cls else (f'{self.parent.qual}.' if self.parent else '')
        return f'{pre}{self.name}'

    @property
    def where(self):
        return f'{self.module.rel}:{self.node.lineno} {self.qual}'

    def decorator_names(self):
        out = []
        for d in self.decorators:
            c = d.func if isinstance(d, ast.Call) else d
            out.append((dotted(c) or '?').split('.')[-1])
        return out

    def decorator(self, name):
        for d in self.decorators:
            c = d.func if isinstance(d, ast.Call) else d
            if (dotted(c) or '').split('.')[-1] == name:
                return d
        return None

    def default_of(self, param):
        a = self.node.args
        pos = a.posonlyargs + a.args
        n = len(pos) - len(a.defaults)
        for i, x in enumerate(pos):
            if x.arg == param:
                return a.defaults[i - n] if i >= n else None
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if x.arg == param:
                return d
        return None

    def __repr__(self):
        return f'<Func {self.qual}>'


TRAIT_CTORS = {
    'Property', 'Instance', 'Delegate', 'DelegatesTo', 'PrototypedFrom', 'Float', 'Int', 'CInt', 'CFloat', 'Bool',
    'CBool', 'Str', 'CStr', 'Any', 'Enum', 'Map', 'Range', 'List', 'CList', 'Dict', 'Tuple', 'Union', 'Either',
    'CArray', 'Array', 'CSet', 'Set', 'File', 'Directory', 'Constant', 'Event', 'Callable', 'Trait', 'CLong', 'Long',
    'Complex', 'Type', 'Button', 'Date', 'Time', 'Password', 'ReadOnly', 'Disallow', 'WeakRef', 'Supports', 'ArrayOrNone',
}


# untyped lists whose documentation fixes the type of their elements
ELEMENT_TYPES = {('MergeGrid', 'grids'): 'Grid'}


class Trait:
    """A class-level trait declaration."""

    def __init__(self, cls, name, node, value):
        self.cls, self.name, self.node, self.value = cls, name, node, value
        self.kind = None
        self.call = None
        v = value
        if isinstance(v, ast.Call):
            k = (dotted(v.func) or '').split('.')[-1]
            if k in TRAIT_CTORS:
                self.kind, self.call = k, v
        elif isinstance(v, (ast.Name, ast.Attribute)):
            k = (dotted(v) or '').split('.')[-1]
            if k in TRAIT_CTORS:
                self.kind, self.call = k, None
        if self.kind in ('DelegatesTo', 'PrototypedFrom'):
            self.kind = 'Delegate'

    @property
    def where(self):
        return f'{self.cls.module.rel}:{self.node.lineno} {self.cls.name}.{self.name}'

    def kw(self, name):
        if self.call:
            for k in self.call.keywords:
                if k.arg == name:
                    return k.value
        return None

    def arg(self, i):
        if self.call and len(self.call.args) > i:
            return self.call.args[i]
        return None

    @property
    def transient(self):
        v = self.kw('transient')
        return isinstance(v, ast.Constant) and v.value is True

    @property
    def is_property(self):
        return self.kind == 'Property'

    def depends_on(self, prog):
        """Explicit depends_on list of a Property, or None when absent."""
        v = self.kw('depends_on')
        if v is None:
            return None
        return prog.str_list(v, self.cls.module)

    def instance_class(self, prog):
        """Declared class of Instance(X) / Union(None, Instance(X)) / List(Instance(X))."""
        if self.kind == 'Instance':
            for a in (self.call.args if self.call else []):
                c = prog.class_of_expr(a, self.cls.module)
                if c is not None:
                    return c
                if isinstance(a, ast.Call):
                    c = prog.class_of_expr(a.func, self.cls.module)
                    if c is not None:
                        return c
        if self.kind in ('Union', 'Either', 'Trait'):
            for a in self.call.args if self.call else []:
                if isinstance(a, ast.Call) and (dotted(a.func) or '').endswith('Instance') and a.args:
                    c = prog.class_of_expr(a.args[0], self.cls.module)
                    if c is not None:
                        return c
        return None

    def element_class(self, prog):
        if self.kind in ('List', 'CList', 'Set', 'CSet'):
            a = self.arg(0)
            if isinstance(a, ast.Call) and (dotted(a.func) or '').endswith('Instance') and a.args:
                return prog.class_of_expr(a.args[0], self.cls.module)
            if (self.cls.name, self.name) in ELEMENT_TYPES:
                return prog.classes.get(ELEMENT_TYPES[self.cls.name, self.name])
        return None

    def enum_values(self):
        """Literal values of an Enum / Map trait (list of constants) or None."""
        if not self.call:
            return None
        if self.kind == 'Enum':
            vals = []
            for a in self.call.args:
                if isinstance(a, (ast.Tuple, ast.List)):
                    vals += [e.value for e in a.elts if isinstance(e, ast.Constant)]
                elif isinstance(a, ast.Constant):
                    vals.append(a.value)
                else:
                    return None
            return vals
        if self.kind == 'Map':
            a = self.arg(0)
            if isinstance(a, ast.Dict):
                return [k.value for k in a.keys if isinstance(k, ast.Constant)]
        return None

    def __repr__(self):
        return f'<Trait {self.cls.name}.{self.name}:{self.kind}>'


class Class:
    def __init__(self, module, node):
        self.module, self.node, self.name = module, node, node.name
        self.methods = {}
        self.attrs = {}          # name -> Trait
        self.method_list = []
        for s in node.body:
            self._add(s)
        self.base_nodes = node.bases
        self.bases = []
        self._mro = None

    def _add(self, s):
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
            f = Func(self.module, s, self)
            self.method_list.append(f)
            self.methods[s.name] = f
            self.attrs.pop(s.name, None)
        elif isinstance(s, ast.Assign):
            for t in s.targets:
                if isinstance(t, ast.Name):
                    self.attrs[t.id] = Trait(self, t.id, s, s.value)
        elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.value is not None:
            self.attrs[s.target.id] = Trait(self, s.target.id, s, s.value)
        elif isinstance(s, (ast.If, ast.Try, ast.With)):
            for sub in s.body:
                self._add(sub)
            for sub in getattr(s, 'orelse', []):
                self._add(sub)

    @property
    def where(self):
        return f'{self.module.rel}:{self.node.lineno} {self.name}'

    def mro(self):
        if self._mro is None:
            def merge(seqs):
                out = []
                seqs = [list(s) for s in seqs if s]
                while seqs:
                    for s in seqs:
                        h = s[0]
                        if not any(h in t[1:] for t in seqs):
                            break
                    else:
                        raise AnalysisError(f'inconsistent MRO for {self.name}')
                    out.append(h)
                    seqs = [[x for x in t if x is not h] for t in seqs]
                    seqs = [t for t in seqs if t]
                return out
            self._mro = [self] + merge([b.mro() for b in self.bases] + [list(self.bases)])
        return self._mro

    def find_method(self, name, after=None):
        mro = self.mro()
        if after is not None:
            mro = mro[mro.index(after) + 1:]
        for c in mro:
            if name in c.methods:
                return c.methods[name]
        return None

    def find_trait(self, name):
        for c in self.mro():
            if name in c.attrs:
                return c.attrs[name]
        return None

    def all_traits(self):
        out = {}
        for c in reversed(self.mro()):
            out.update(c.attrs)
        return out

    def all_methods(self):
        out = {}
        for c in reversed(self.mro()):
            out.update(c.methods)
        return out

    def issub(self, other):
        return other in self.mro()

    def external_bases(self):
        out = set()
        for c in self.mro():
            for b in c.base_nodes:
                d = dotted(b) or (dotted(b.func) if isinstance(b, ast.Call) else None)
                if d:
                    out.add(d.split('.')[-1])
        return out

    @property
    def is_traits(self):
        return bool({'HasTraits', 'HasStrictTraits', 'ABCHasStrictTraits', 'ABCHasTraits'} & self.external_bases())

    def abstract_methods(self):
        return {n for n, f in self.all_methods().items() if 'abstractmethod' in f.decorator_names()}

    def __repr__(self):
        return f'<Class {self.name}>'


class Module:
    def __init__(self, name, path, repo, text, tree):
        self.name, self.path = name, path
        self.rel = str(path.relative_to(repo))
        self.text, self.tree = text, tree
        self.is_pkg = path.name == '__init__.py'
        self.classes, self.functions, self.imports, self.globals = {}, {}, {}, {}
        self.star_imports = []
        for n in ast.walk(self.tree):
            for ch in ast.iter_child_nodes(n):
                ch._parent = n
        self._collect(self.tree.body)
        # imports inside functions (used as a fallback when a name is not known at module level)
        top = dict(self.imports)
        for n in ast.walk(self.tree):
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self._collect([x for x in ast.walk(n) if isinstance(x, (ast.Import, ast.ImportFrom))])
        self.nested_imports = {k: v for k, v in self.imports.items() if k not in top}
        self.imports = top

    def _abs(self, level, mod):
        if level == 0:
            return mod or ''
        base = self.name.split('.')
        if not self.is_pkg:
            base = base[:-1]
        base = base[: len(base) - (level - 1)]
        return '.'.join(base + ([mod] if mod else []))

    def _collect(self, body):
        for s in body:
            if isinstance(s, ast.ClassDef):
                self.classes[s.name] = Class(self, s)
            elif isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.functions[s.name] = Func(self, s)
            elif isinstance(s, ast.Import):
                for a in s.names:
                    self.imports[a.asname or a.name.split('.')[0]] = (a.name if a.asname else a.name.split('.')[0], None)
            elif isinstance(s, ast.ImportFrom):
                m = self._abs(s.level, s.module)
                for a in s.names:
                    if a.name == '*':
                        self.star_imports.append(m)
                    else:
                        self.imports[a.asname or a.name] = (m, a.name)
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        self.globals[t.id] = s.value
                    elif isinstance(t, (ast.Tuple, ast.List)):
                        for e in t.elts:
                            if isinstance(e, ast.Name):
                                self.globals[e.id] = None
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                self.globals[s.target.id] = s.value
            elif isinstance(s, ast.If):
                self._collect(s.body)
                self._collect(s.orelse)
            elif isinstance(s, ast.Try):
                self._collect(s.body)
                for h in s.handlers:
                    self._collect(h.body)
                self._collect(s.orelse)
                self._collect(s.finalbody)
            elif isinstance(s, (ast.With, ast.For, ast.While)):
                self._collect(s.body)

    def __repr__(self):
        return f'<Module {self.name}>'


class Program:
    def __init__(self, repo=None, overrides=None):
        self.repo = pathlib.Path(repo or REPO)
        overrides = overrides or {}
        self.modules = {}
        root = self.repo / PKG
        if not root.is_dir():
            raise AnalysisError(f'no package at {root}')
        h = hashlib.sha256()
        texts, trees, paths = {}, {}, {}
        for p in sorted(root.rglob('*.py')):
            rel = p.relative_to(self.repo)
            parts = list(rel.with_suffix('').parts)
            if parts[-1] == '__init__':
                parts = parts[:-1]
            name = '.'.join(parts)
            text = overrides.get(str(rel))
            texts[name] = p.read_text() if text is None else text
            try:
                trees[name] = ast.parse(texts[name], filename=str(p))
            except SyntaxError as e:
                raise AnalysisError(f'cannot parse {rel}: {e}') from e
            paths[name] = p
            h.update(str(rel).encode() + b'\0' + texts[name].encode())
        normal.normalise(trees)
        for name, p in paths.items():
            self.modules[name] = Module(name, p, self.repo, texts[name], trees[name])
        self.digest = h.hexdigest()
        self.classes = {}
        for m in self.modules.values():
            for c in m.classes.values():
                self.classes.setdefault(c.name, c)
        for m in self.modules.values():
            for c in m.classes.values():
                for b in c.base_nodes:
                    k = self.class_of_expr(b, m)
                    if k is not None and k is not c:
                        c.bases.append(k)
        self.read_files = [m.rel for m in self.modules.values()]

    # ------------------------------------------------------------------ name resolution
    def resolve_global(self, module, name, depth=0):
        """Resolve a bare name in a module: ('class',C) ('func',F) ('module',M) ('ext','numpy.zeros') ('global',(M,expr)) or None."""
        if depth > 12:
            return None
        if name in module.classes:
            return ('class', module.classes[name])
        if name in module.functions:
            return ('func', module.functions[name])
        if name in module.imports:
            m, attr = module.imports[name]
            if attr is None:
                if m in self.modules:
                    return ('module', self.modules[m])
                return ('ext', m)
            full = f'{m}.{attr}'
            if full in self.modules:
                return ('module', self.modules[full])
            if m in self.modules:
                r = self.resolve_global(self.modules[m], attr, depth + 1)
                return r
            return ('ext', full)
        if name in module.globals:
            return ('global', (module, module.globals[name]))
        for sm in module.star_imports:
            if sm in self.modules:
                r = self.resolve_global(self.modules[sm], name, depth + 1)
                if r:
                    return r
        if name in module.nested_imports and depth == 0:
            m, attr = module.nested_imports[name]
            if attr is None:
                return ('module', self.modules[m]) if m in self.modules else ('ext', m)
            if f'{m}.{attr}' in self.modules:
                return ('module', self.modules[f'{m}.{attr}'])
            return self.resolve_global(self.modules[m], attr, depth + 1) if m in self.modules else ('ext', f'{m}.{attr}')
        if hasattr(builtins, name):
            return ('ext', f'builtins.{name}')
        return None

    def resolve_dotted(self, module, node):
        """Resolve a Name / Attribute chain whose root is a module-level name."""
        if isinstance(node, ast.Name):
            return self.resolve_global(module, node.id)
        if isinstance(node, ast.Attribute):
            base = self.resolve_dotted(module, node.value)
            if base is None:
                return None
            k, v = base
            if k == 'module':
                r = self.resolve_global(v, node.attr)
                if r is None and f'{v.name}.{node.attr}' in self.modules:
                    return ('module', self.modules[f'{v.name}.{node.attr}'])
                return r
            if k == 'ext':
                return ('ext', f'{v}.{node.attr}')
            if k == 'class':
                f = v.find_method(node.attr)
                if f:
                    return ('func', f)
                t = v.find_trait(node.attr)
                if t:
                    return ('clsattr', t)
        return None

    def class_of_expr(self, node, module):
        r = self.resolve_dotted(module, node) if isinstance(node, (ast.Name, ast.Attribute)) else None
        if r and r[0] == 'class':
            return r[1]
        return None

    def str_list(self, node, module, depth=0):
        """Evaluate a constant list-of-strings expression (literals, names, +, *-splices)."""
        if depth > 8 or node is None:
            return None
        if isinstance(node, ast.Constant) and isinstance(node.value, str):
            return [x.strip() for x in node.value.split(',')]
        if isinstance(node, (ast.List, ast.Tuple)):
            out = []
            for e in node.elts:
                if isinstance(e, ast.Starred):
                    sub = self.str_list(e.value, module, depth + 1)
                else:
                    sub = self.str_list(e, module, depth + 1)
                if sub is None:
                    return None
                out += sub
            return out
        if isinstance(node, ast.BinOp) and isinstance(node.op, ast.Add):
            a, b = self.str_list(node.left, module, depth + 1), self.str_list(node.right, module, depth + 1)
            return None if a is None or b is None else a + b
        if isinstance(node, ast.Call) and (dotted(node.func) in ('list', 'tuple')) and len(node.args) == 1:
            return self.str_list(node.args[0], module, depth + 1)
        if isinstance(node, (ast.Name, ast.Attribute)):
            r = self.resolve_dotted(module, node)
            if r and r[0] == 'global':
                return self.str_list(r[1][1], r[1][0], depth + 1)
        return None

    def subclasses(self, cls):
        return [c for m in self.modules.values() for c in m.classes.values() if cls in c.mro()]

    def cls(self, name):
        if name not in self.classes:
            raise AnalysisError(f'anchor vanished: class {name}')
        return self.classes[name]

    def all_classes(self):
        return [c for m in self.modules.values() for c in m.classes.values()]

    def all_funcs(self, nested=True):
        for m in self.modules.values():
            for n in ast.walk(m.tree):
                if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    yield m, n
