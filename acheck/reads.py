"""Which configuration does an output depend on?  Typed, interprocedural read sets.

``Reads.method_accesses(C, f)`` returns every access path rooted at ``self`` (an
instance of C) that method ``f`` may read, following self-methods, ``super()``
calls, module helpers that receive ``self`` or a sub-object, local aliases,
element access of object lists and helper classes built around ``self``.
"""

import ast

from .model import dotted, walk_no_nested, const_str

OBJ_METHODS_IGNORED = {
    'trait_get', 'trait_set', 'trait', 'on_trait_change', 'observe', 'trait_property_changed', 'traits', 'trait_names',
    'configure_traits', 'edit_traits', 'add_trait', 'clone_traits', 'copy_traits', 'has_traits_interface',
}


class Access:
    __slots__ = ('path', 'kind', 'func', 'line', 'guard')

    def __init__(self, path, kind, func, line, guard=False):
        self.path, self.kind, self.func, self.line, self.guard = path, kind, func, line, guard

    def __repr__(self):
        return f"{'.'.join(self.path)}[{self.kind}]@{self.func.qual}:{self.line}"


def _only_diagnostic(stmts):
    """A body that only reports (raise / warn / print / pass / log)."""
    if not stmts:
        return False
    for s in stmts:
        if isinstance(s, (ast.Raise, ast.Pass)):
            continue
        if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
            continue
        if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call):
            n = dotted(s.value.func) or ''
            if n in ('print', 'warn', 'warnings.warn') or n.startswith('logger.') or n.endswith('.warning'):
                continue
            return False
        if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and s.targets[0].id in ('msg', 'message'):
            continue
        return False
    return True


class Reads:
    def __init__(self, prog):
        self.prog = prog
        self._memo = {}
        self._type_memo = {}

    # ------------------------------------------------------------------ types
    def typeof(self, C, path):
        key = (C, path)
        if key in self._type_memo:
            return self._type_memo[key]
        self._type_memo[key] = None
        cur, i = C, 0
        res = C
        rest = list(path)
        ok = True
        while rest:
            n = rest.pop(0)
            if n == '*':
                ok = False
                break
            k = self._attr_type(cur, n)
            if k is None:
                # element of list?
                if rest and rest[0] == '*':
                    t = cur.find_trait(n) if cur else None
                    k = t.element_class(self.prog) if t else None
                    if k is not None:
                        rest.pop(0)
                        cur = k
                        continue
                ok = False
                break
            cur = k
        res = cur if ok else None
        self._type_memo[key] = res
        return res

    def _attr_type(self, C, name, depth=0):
        if C is None or depth > 6:
            return None
        t = C.find_trait(name)
        if t is None:
            return None
        k = t.instance_class(self.prog)
        if k is not None:
            return k
        if t.kind == 'Delegate':
            tgt = const_str(t.arg(0)) if t.arg(0) is not None else None
            nm = const_str(t.arg(1)) if t.arg(1) is not None else name
            base = self._attr_type(C, tgt, depth + 1) if tgt else None
            return self._attr_type(base, nm, depth + 1) if base else None
        if t.kind == 'Property':
            if t.arg(0) is not None:
                k = self.prog.class_of_expr(t.arg(0), t.cls.module)
                if k is not None:
                    return k
            g = C.find_method(f'_get_{name}')
            if g is not None:
                for r in ast.walk(g.node):
                    if isinstance(r, ast.Return) and r.value is not None:
                        d = dotted(r.value)
                        if d and d.startswith('self.'):
                            k = self.typeof(C, tuple(d.split('.')[1:]))
                            if k is not None:
                                return k
        return None

    # ------------------------------------------------------------------ accesses
    def method_accesses(self, C, f, binds=None, stack=()):
        """Set of Access for calling f with self:C.  binds: {param: set(paths)} (paths relative to root C)."""
        binds = binds or {}
        key = (C, f, tuple(sorted((k, tuple(sorted(v))) for k, v in binds.items())))
        if key in self._memo:
            return self._memo[key]
        if f in stack or len(stack) > 25:
            return []
        self._memo[key] = []
        w = _Walker(self, C, f, binds, stack + (f,))
        w.run()
        self._memo[key] = w.out
        return w.out

    def return_paths(self, C, f, binds, stack):
        w = _Walker(self, C, f, binds, stack + (f,))
        w.build_env()
        out = set()
        for n in walk_no_nested(f.node):
            if isinstance(n, ast.Return) and n.value is not None:
                out |= w.paths(n.value)
        return out


class _Walker:
    def __init__(self, eng, C, f, binds, stack):
        self.eng, self.C, self.f, self.stack = eng, C, f, stack
        self.prog = eng.prog
        self.out = []
        self.env = {}
        self.objbind = {}
        params = f.params
        self.selfname = None
        if f.cls is not None and params and 'staticmethod' not in f.decorator_names():
            self.selfname = params[0]
        if self.selfname and self.selfname not in binds:
            self.env[self.selfname] = {()}
        for k, v in binds.items():
            self.env[k] = set(v)
        self._seen = set()

    # -- environment: flow-insensitive aliases
    def build_env(self):
        for _ in range(4):
            before = {k: set(v) for k, v in self.env.items()}
            for n in ast.walk(self.f.node):
                if isinstance(n, ast.Assign):
                    for t in n.targets:
                        self._bind(t, n.value)
                elif isinstance(n, ast.AnnAssign) and n.value is not None:
                    self._bind(n.target, n.value)
                elif isinstance(n, ast.NamedExpr):
                    self._bind(n.target, n.value)
                elif isinstance(n, (ast.For, ast.comprehension)):
                    self._bind_iter(n.target, n.iter)
                elif isinstance(n, ast.withitem) and n.optional_vars is not None:
                    self._bind(n.optional_vars, n.context_expr)
            if before == self.env:
                break

    def _bind(self, target, value):
        if isinstance(target, ast.Name):
            p = self.paths(value)
            if p:
                self.env.setdefault(target.id, set()).update(p)
        elif isinstance(target, (ast.Tuple, ast.List)) and isinstance(value, (ast.Tuple, ast.List)) and len(target.elts) == len(value.elts):
            for a, b in zip(target.elts, value.elts):
                self._bind(a, b)

    def _bind_iter(self, target, it):
        if isinstance(it, ast.Call):
            fn = dotted(it.func) or ''
            if fn == 'enumerate' and it.args and isinstance(target, (ast.Tuple, ast.List)) and len(target.elts) == 2:
                return self._bind_iter(target.elts[1], it.args[0])
            if fn == 'zip' and isinstance(target, (ast.Tuple, ast.List)):
                for t, a in zip(target.elts, it.args):
                    self._bind_iter(t, a)
                return None
            if fn in ('reversed', 'list', 'tuple', 'sorted', 'iter') and it.args:
                return self._bind_iter(target, it.args[0])
        ps = self.paths(it)
        if isinstance(it, (ast.Tuple, ast.List)):
            for e in it.elts:
                self._bind(target, e)
        if isinstance(target, ast.Name):
            for p in ps:
                if self._is_objlist(p):
                    self.env.setdefault(target.id, set()).add(p + ('*',))
        return None

    def _is_objlist(self, p):
        if not p:
            return False
        base = self.eng.typeof(self.C, p[:-1])
        t = base.find_trait(p[-1]) if base else None
        return bool(t and t.kind in ('List', 'CList', 'Tuple', 'Set'))

    # -- alias paths of an expression
    def paths(self, e):
        if isinstance(e, ast.Name):
            return self.env.get(e.id, set())
        if isinstance(e, ast.Attribute):
            out = set()
            for p in self.paths(e.value):
                k = self.eng.typeof(self.C, p)
                if k is not None and k.find_trait(e.attr) is not None:
                    out.add(p + (e.attr,))
            return out
        if isinstance(e, ast.Subscript):
            out = set()
            for p in self.paths(e.value):
                if self._is_objlist(p):
                    out.add(p + ('*',))
            return out
        if isinstance(e, ast.IfExp):
            return self.paths(e.body) | self.paths(e.orelse)
        if isinstance(e, ast.BoolOp):
            out = set()
            for v in e.values:
                out |= self.paths(v)
            return out
        if isinstance(e, ast.NamedExpr):
            return self.paths(e.value)
        if isinstance(e, ast.Call):
            fn = dotted(e.func)
            if fn == 'getattr' and len(e.args) >= 2 and const_str(e.args[1]):
                return self.paths(ast.Attribute(value=e.args[0], attr=const_str(e.args[1]), ctx=ast.Load()))
            if fn in ('copy', 'copy.copy', 'deepcopy', 'copy.deepcopy') and e.args:
                return self.paths(e.args[0])
            tgt = self._callee(e)
            if tgt:
                out = set()
                for g, binds, C in tgt:
                    if C is self.C and g not in self.stack:
                        out |= self.eng.return_paths(C, g, binds, self.stack)
                return out
        return set()

    def _callee(self, call):
        """[(Func, binds, class)] for calls whose reads have to be inlined (paths stay relative to root C)."""
        f = call.func
        out = []
        if isinstance(f, ast.Attribute):
            # super().m(...)
            if isinstance(f.value, ast.Call) and dotted(f.value.func) == 'super' and self.f.cls is not None:
                g = self.C.find_method(f.attr, after=self.f.cls) if self.f.cls in self.C.mro() else None
                if g:
                    out.append((g, self._args(call, g, True), self.C))
                return out
            for p in self.paths(f.value):
                if p == ():
                    g = self.C.find_method(f.attr)
                    if g:
                        out.append((g, self._args(call, g, True), self.C))
            if out:
                return out
        if isinstance(f, ast.Name) and f.id not in self.env or isinstance(f, ast.Attribute):
            r = self.prog.resolve_dotted(self.f.module, f)
            if r and r[0] == 'func':
                g = r[1]
                if g.module.name == 'acoular.internal':
                    return out       # digest helpers: what they read is the declared dependency list
                # nested Class.method(self, ...) call
                b = self._args(call, g, False)
                if b:
                    out.append((g, b, self.C))
        return out

    def _args(self, call, g, bound):
        params = list(g.params)
        binds = {}
        if bound and params and 'staticmethod' not in g.decorator_names():
            binds[params[0]] = {()}
            params = params[1:]
        for p, a in zip(params, call.args):
            s = self.paths(a)
            if s:
                binds[p] = set(s)
        for k in call.keywords:
            if k.arg and (k.arg in params or k.arg in g.kwonly):
                s = self.paths(k.value)
                if s:
                    binds[k.arg] = set(s)
        if bound and len(binds) == 1:
            return {}          # only self: default binding
        return binds

    # -- main walk
    def run(self):
        self.build_env()
        for s in self.f.node.body:
            self.visit(s, False)

    def add(self, path, kind, node, guard):
        key = (path, kind, guard)
        if key in self._seen:
            return
        self._seen.add(key)
        self.out.append(Access(path, kind, self.f, getattr(node, 'lineno', 0), guard))

    def merge(self, accs, guard):
        for a in accs:
            key = (a.path, a.kind, a.guard or guard)
            if key not in self._seen:
                self._seen.add(key)
                self.out.append(Access(a.path, a.kind, a.func, a.line, a.guard or guard))

    def visit(self, n, guard):
        if isinstance(n, ast.Raise):
            return self.children(n, True)
        if isinstance(n, ast.Assert):
            return self.children(n, True)
        if isinstance(n, ast.If) and _only_diagnostic(n.body):
            self.visit(n.test, guard or not n.orelse)
            for s in n.body:
                self.visit(s, True)
            for s in n.orelse:
                self.visit(s, guard)
            return None
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and (dotted(n.value.func) in ('print', 'warn', 'warnings.warn')):
            return self.children(n, True)
        if isinstance(n, ast.Call):
            return self.visit_call(n, guard)
        if isinstance(n, ast.Attribute):
            return self.visit_attr(n, guard)
        if isinstance(n, ast.Assign):
            # pure local alias of an object path: the read is recorded where the alias is used
            self.visit_rhs(n.value, guard)
            for t in n.targets:
                self.visit(t, guard)
            return None
        return self.children(n, guard)

    def visit_rhs(self, v, guard):
        if isinstance(v, ast.Attribute):
            ps = self.paths(v)
            if ps and all(self.eng.typeof(self.C, p) is not None for p in ps):
                for p in ps:
                    self._through(p, v, guard)
                return
        self.visit(v, guard)

    def _through(self, p, node, guard):
        """Record the intermediate object-valued Property reads of a path."""
        for i in range(1, len(p) + 1):
            k = self.eng.typeof(self.C, p[: i - 1])
            t = k.find_trait(p[i - 1]) if k else None
            if t is not None and t.is_property:
                self.add(p[:i], 'obj', node, guard)

    def children(self, n, guard):
        for c in ast.iter_child_nodes(n):
            self.visit(c, guard)

    def visit_attr(self, n, guard):
        if isinstance(n.ctx, (ast.Store, ast.Del)):
            for p in self.paths(n.value):
                k = self.eng.typeof(self.C, p)
                if k is not None and k.find_trait(n.attr) is not None:
                    self.add(p + (n.attr,), 'store', n, guard)
            return self.visit(n.value, guard) if not isinstance(n.value, ast.Name) else None
        hit = False
        for p in self.paths(n.value):
            k = self.eng.typeof(self.C, p)
            if k is None:
                continue
            t = k.find_trait(n.attr)
            g = k.find_method(n.attr)
            if t is not None:
                hit = True
                self.add(p + (n.attr,), 'read', n, guard)
            elif g is not None:
                hit = True
                self._method_ref(p, k, g, n, guard)
            elif n.attr.endswith('_') and k.find_trait(n.attr[:-1]) is not None:
                hit = True     # mapped shadow trait of a Map
                self.add(p + (n.attr[:-1],), 'read', n, guard)
        if not hit:
            self.visit(n.value, guard)
        return None

    def _method_ref(self, p, k, g, node, guard, binds=None):
        if p == ():
            self.merge(self.eng.method_accesses(self.C, g, binds or {}, self.stack), guard)
        else:
            self.add(p + (g.name + '()',), 'call', node, guard)

    def visit_call(self, n, guard):
        f = n.func
        done_func = False
        fn = dotted(f)
        if fn in ('getattr', 'hasattr') and len(n.args) >= 2 and const_str(n.args[1]):
            self.visit_attr(ast.copy_location(ast.Attribute(value=n.args[0], attr=const_str(n.args[1]), ctx=ast.Load()), n), guard)
            for a in n.args[2:]:
                self.visit(a, guard)
            return
        if fn in ('isinstance', 'issubclass', 'id', 'type', 'callable') and n.args:
            self.visit(n.args[0], guard)
            return
        if isinstance(f, ast.Attribute) and f.attr in OBJ_METHODS_IGNORED and self.paths(f.value):
            for a in n.args:
                self.visit(a, guard)
            return
        callees = self._callee(n)
        for g, binds, C in callees:
            self.merge(self.eng.method_accesses(self.C, g, binds, self.stack), guard)
            done_func = True
        if not callees and isinstance(f, (ast.Name, ast.Attribute)):
            r = self.prog.resolve_dotted(self.f.module, f) if not (isinstance(f, ast.Name) and f.id in self.env) else None
            if r and r[0] == 'class':
                self._construct(r[1], n, guard)
                done_func = True
        if not done_func:
            self.visit(f, guard)
        elif isinstance(f, ast.Attribute) and not self.paths(f.value) and not (isinstance(f.value, ast.Call) and dotted(f.value.func) == 'super'):
            pass
        is_digest = isinstance(f, ast.Name) and f.id in ('digest', 'ldigest')
        for a in list(n.args) + [k.value for k in n.keywords]:
            if is_digest:
                continue
            if isinstance(a, ast.Starred):
                a = a.value
            ps = self.paths(a) if isinstance(a, (ast.Name, ast.Attribute)) else set()
            objs = {p for p in ps if self.eng.typeof(self.C, p) is not None}
            if objs and callees:
                for p in objs:
                    self._through(p, a, guard)
                continue     # the callee's reads through this argument were inlined
            if objs:
                for p in objs:
                    if p != ():
                        self.add(p, 'objarg', a, guard)
                continue
            self.visit(a, guard)

    def _construct(self, K, call, guard):
        init = K.find_method('__init__')
        if K.is_traits or init is None:
            return
        b = self._args(call, init, True)
        # attributes of the helper object that alias our paths
        fields = {}
        for n in ast.walk(init.node):
            if isinstance(n, ast.Assign) and isinstance(n.value, ast.Name) and n.value.id in b and b[n.value.id] != {()}:
                for t in n.targets:
                    if isinstance(t, ast.Attribute):
                        fields[t.attr] = b[n.value.id]
            if isinstance(n, ast.Assign) and isinstance(n.value, ast.Name) and n.value.id in init.params[1:]:
                i = init.params.index(n.value.id) - 1
                if i < len(call.args):
                    s = self.paths(call.args[i])
                    for t in n.targets:
                        if isinstance(t, ast.Attribute) and s:
                            fields[t.attr] = set(s)
        if not fields:
            return
        for m in K.methods.values():
            w = _Walker(self.eng, self.C, m, {m.params[0]: set()} if m.params else {}, self.stack + (m,))
            w.selfname = None
            w.fields = (m.params[0] if m.params else None, fields)
            orig = w.paths

            def paths(e, w=w, orig=orig):
                if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and e.value.id == w.fields[0] and e.attr in w.fields[1]:
                    return w.fields[1][e.attr]
                return orig(e)

            w.paths = paths
            w.run()
            self.merge(w.out, guard)
