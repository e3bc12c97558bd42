"""P24: a local name is bound on every feasible path that reaches a use of it.

The state is a set of worlds; a world is a valuation of the conditions tested so far together with the set of locals that are
bound.  Conditions on the same unmodified operands are correlated, ``x == literal`` tests on Enum/Map traits exclude each other
and are exhausted by the declared values.
"""

import ast

from .flow import Flow, const_bool
from .model import dotted

CAP = 96


class Worlds:
    """frozenset of (frozenset of (cond, value), frozenset of bound names)"""

    def __init__(self, ws):
        self.ws = ws

    def copy(self):
        return Worlds(self.ws)

    def join(self, o):
        ws = self.ws | o.ws
        if len(ws) > CAP:
            ws = merge(ws)
        return Worlds(ws)

    def __eq__(self, o):
        return self.ws == o.ws


def merge(ws):
    """forget valuations: one world per set of bound names, at worst one world"""
    by = {}
    for v, b in ws:
        by[b] = (by[b] & v) if b in by else v
    out = {(v, b) for b, v in by.items()}
    if len(out) > CAP:
        b = frozenset.intersection(*[b for _, b in out])
        v = frozenset.intersection(*[v for v, _ in out])
        out = {(v, b)}
    return frozenset(out)


def own(fn):
    todo = list(fn.body)
    while todo:
        n = todo.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda, ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            if isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
                todo += [x for x in ast.walk(n) if isinstance(x, ast.NamedExpr)]
            continue
        todo += list(ast.iter_child_nodes(n))


def target_names(t):
    return [n.id for n in ast.walk(t) if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del))]


class Definite(Flow):
    MAX_ITER = 12

    def __init__(self, prog, func, values):
        """values(expr_text) -> tuple of all values the expression can have, or None"""
        self.prog, self.func, self.values = prog, func, values
        fn = func.node
        self.uses = {}
        self.checked = 0
        a = fn.args
        params = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs} | {x.arg for x in (a.vararg, a.kwarg) if x}
        loc, nonloc = set(), set()
        counts = {}
        for n in own(fn):
            names = []
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                names = [n.id]
            elif isinstance(n, ast.ExceptHandler) and n.name:
                names = [n.name]
            elif isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
                names = [n.name]
            elif isinstance(n, (ast.Import, ast.ImportFrom)):
                names = [(x.asname or x.name).split('.')[0] for x in n.names]
            elif isinstance(n, (ast.Global, ast.Nonlocal)):
                nonloc |= set(n.names)
            loc |= set(names)
            for x in names:
                counts[x] = counts.get(x, 0) + 1
        self.locals = loc - params - nonloc
        self.conds = self.correlated(fn)
        # single assignment aliases of attributes: x = self.mode
        self.alias = {}
        for n in own(fn):
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and counts.get(n.targets[0].id) == 1:
                d = dotted(n.value) if isinstance(n.value, ast.Attribute) else None
                if d:
                    self.alias[n.targets[0].id] = d

    def start(self):
        st = Worlds(frozenset([(frozenset(), frozenset())]))
        # states a change handler of the same class rejects cannot be reached
        cls = self.func.cls
        if cls is not None and cls.is_traits:
            for n, g in cls.all_methods().items():
                if g.decorator('on_trait_change') is None and g.decorator('observe') is None or g.name == self.func.name:
                    continue
                for s in g.node.body:
                    if isinstance(s, ast.If) and s.body and isinstance(s.body[-1], ast.Raise) and not s.orelse:
                        self.conds |= set(atoms(s.test))
                        _, f = self.branch(s.test, st)
                        st = f or st
        return st

    def correlated(self, fn):
        seen = {}
        for n in own(fn):
            for t in ([n.test] if isinstance(n, (ast.If, ast.While, ast.IfExp)) else []):
                for c in atoms(t):
                    seen[c] = seen.get(c, 0) + 1
        self.condwords = {w for c in seen for w in words(c)}
        return {c for c, k in seen.items() if k > 1}

    # ------------------------------------------------ worlds
    def kill(self, st, names=(), attrs=()):
        if not names and not attrs:
            return
        out = set()
        for v, b in st.ws:
            v2 = frozenset(c for c in v if not (set(words(c[0])) & set(names)) and not any(a in c[0] for a in attrs))
            out.add((v2, b))
        st.ws = frozenset(out)

    def set(self, st, name, const=None):
        self.kill(st, [name])
        if const is not None and name in self.condwords:
            st.ws = frozenset((v | {(name + '∈', (const.value,))}, b) for v, b in st.ws)
        if name in self.locals:
            st.ws = frozenset((v, b | {name}) for v, b in st.ws)

    def bind_name(self, name, st):
        self.set(st, name)

    def unset(self, st, name):
        st.ws = frozenset((v, b - {name}) for v, b in st.ws)

    def use(self, n, st):
        if n.id in self.locals:
            self.checked += 1
            if any(n.id not in b for _, b in st.ws):
                self.uses.setdefault(n.id, n)

    # ------------------------------------------------ expressions
    def eval(self, e, st):
        self.go(e, st, frozenset())

    def go(self, n, st, bound):
        if n is None or not st.ws:
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            b = bound
            for i, g in enumerate(n.generators):
                self.go(g.iter, st, b)
                b = b | frozenset(target_names(g.target))
                for c in g.ifs:
                    self.go(c, st, b)
            for part in ([n.key, n.value] if isinstance(n, ast.DictComp) else [n.elt]):
                self.go(part, st, b)
        elif isinstance(n, ast.Lambda):
            return
        elif isinstance(n, ast.NamedExpr):
            self.go(n.value, st, bound)
            self.set(st, n.target.id)
        elif isinstance(n, ast.BoolOp):
            self.go(n.values[0], st, bound)
            cur = st.copy()
            for i, v in enumerate(n.values[1:]):
                t, f = self.branch(n.values[i], cur)
                cur = t if isinstance(n.op, ast.And) else f
                if cur is None:
                    break
                self.go(v, cur, bound)
        elif isinstance(n, ast.IfExp):
            self.go(n.test, st, bound)
            t, f = self.branch(n.test, st)
            if t is not None:
                self.go(n.body, t, bound)
            if f is not None:
                self.go(n.orelse, f, bound)
        elif isinstance(n, ast.Name):
            if isinstance(n.ctx, ast.Load) and n.id not in bound:
                self.use(n, st)
        else:
            for c in ast.iter_child_nodes(n):
                if isinstance(c, (ast.expr, ast.keyword, ast.Starred, ast.FormattedValue, ast.Slice)):
                    self.go(c, st, bound)

    def store(self, t, st):
        if isinstance(t, ast.Name):
            self.set(st, t.id)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for e in t.elts:
                self.store(e, st)
        elif isinstance(t, ast.Starred):
            self.store(t.value, st)
        else:
            for c in ast.iter_child_nodes(t):
                if isinstance(c, ast.expr):
                    self.eval(c, st)
            if isinstance(t, ast.Attribute):
                self.kill(st, attrs=[ast.unparse(t)])
            elif isinstance(t, ast.Subscript):
                self.kill(st, attrs=[ast.unparse(t.value)])

    def simple(self, s, st):
        if isinstance(s, ast.Assign):
            self.eval(s.value, st)
            for t in s.targets:
                if isinstance(t, ast.Name) and isinstance(s.value, ast.Constant):
                    self.set(st, t.id, s.value)
                else:
                    self.store(t, st)
        elif isinstance(s, ast.AugAssign):
            if isinstance(s.target, ast.Name):
                self.use(s.target, st)
            self.eval(s.value, st)
            self.store(s.target, st)
        elif isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.eval(s.value, st)
                self.store(s.target, st)
        elif isinstance(s, ast.Delete):
            for t in s.targets:
                for n in target_names(t):
                    if n in self.locals:
                        self.unset(st, n)
        elif isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            self.set(st, s.name)
        elif isinstance(s, (ast.Import, ast.ImportFrom)):
            for a in s.names:
                self.set(st, (a.asname or a.name).split('.')[0])
        elif isinstance(s, ast.Assert):
            self.eval(s.test, st)
            t, _ = self.branch(s.test, st)
            if t is not None:
                st.ws = t.ws
        else:
            for c in ast.iter_child_nodes(s):
                if isinstance(c, ast.expr):
                    self.eval(c, st)

    def _for(self, s, st):
        mark = f'loop@{id(s)}'
        self.kill(st, attrs=[mark])
        return super()._for(s, st)

    def bind_for(self, node, st):
        self.store(node.target, st)
        # the counter of enumerate / range(n) is zero exactly in the first iteration
        fn = dotted(node.iter.func) if isinstance(node.iter, ast.Call) else None
        var = None
        if fn == 'enumerate' and len(node.iter.args) == 1 and isinstance(node.target, ast.Tuple) and isinstance(node.target.elts[0], ast.Name):
            var = node.target.elts[0].id
        elif fn in ('range', 'arange') and len(node.iter.args) == 1 and isinstance(node.target, ast.Name):
            var = node.target.id
        if var and var in self.condwords:
            mark = f'loop@{id(node)}'
            out = set()
            for v, b in st.ws:
                if any(c[0] == mark for c in v):
                    out.add((v | {(var + '∉', (0,))}, b))
                else:
                    out.add((v | {(mark, True), (var + '∈', (0,))}, b))
            st.ws = frozenset(out)

    # do-while idiom: a residual initialised to ones(...)/inf forces the first iteration, a counter starts below its limit
    def _while(self, s, st):
        if self.entered(s):
            o1 = self.block(s.body, st)
            back = o1.next if o1.cont is None else (o1.cont if o1.next is None else o1.next.join(o1.cont))
            if back is None:
                from .flow import Out
                return Out(next=o1.brk, ret=o1.ret, exc=o1.exc)
            o2 = super()._while(s, back)
            for k in ('ret', 'exc'):
                a, b = getattr(o1, k), getattr(o2, k)
                setattr(o2, k, a if b is None else (b if a is None else a.join(b)))
            if o1.brk is not None:
                o2.next = o1.brk if o2.next is None else o2.next.join(o1.brk)
            return o2
        return super()._while(s, st)

    def entered(self, s):
        conj = s.test.values if isinstance(s.test, ast.BoolOp) and isinstance(s.test.op, ast.And) else [s.test]
        par = getattr(s, '_parent', None)
        before = []
        for fld in ('body', 'orelse', 'finalbody'):
            lst = getattr(par, fld, None)
            if isinstance(lst, list) and s in lst:
                before = lst[: lst.index(s)]
        last = {}
        for b in before:
            for n in ast.walk(b):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                    last[n.id] = b.value if isinstance(b, ast.Assign) and b.targets == [n] else None
        ok = 0
        for c in conj:
            if not (isinstance(c, ast.Compare) and len(c.ops) == 1):
                return False
            op, left, right = c.ops[0], c.left, c.comparators[0]
            if isinstance(op, (ast.Lt, ast.LtE)) and not (isinstance(left, ast.Name) and isinstance(last.get(left.id), ast.Constant)):
                op, left, right = ast.Gt(), right, left
            elif isinstance(op, (ast.Gt, ast.GtE)) and isinstance(right, ast.Name) and isinstance(last.get(right.id), ast.Constant):
                op, left, right = ast.Lt(), right, left
            if isinstance(op, (ast.Lt, ast.LtE)) and isinstance(left, ast.Name) and isinstance(last.get(left.id), ast.Constant) and isinstance(right, ast.Constant):
                if not last[left.id].value < right.value:
                    return False
                ok += 1
                continue
            if isinstance(op, (ast.Gt, ast.GtE)):
                names = [n.id for n in ast.walk(left) if isinstance(n, ast.Name) and n.id in last]
                if names and all(self.forcing(last[x]) for x in names):
                    ok += 1
                    continue
            return False
        return ok == len(conj) and ok > 0

    def forcing(self, v):
        if isinstance(v, ast.Call):
            d = (dotted(v.func) or '').split('.')[-1]
            return d in ('ones', 'full', 'ones_like', 'full_like') or d == 'float'
        d = (dotted(v) or '') if v is not None else ''
        return d.split('.')[-1] in ('inf', 'Inf') or isinstance(v, ast.Constant) and isinstance(v.value, (int, float)) and v.value >= 1

    def with_enter(self, item, st):
        self.eval(item.context_expr, st)
        if item.optional_vars is not None:
            self.store(item.optional_vars, st)

    def nonempty(self, s, st):
        it = s.iter
        if isinstance(it, (ast.Tuple, ast.List)) and it.elts:
            return True
        # assumption: configured counts (self.num_sources, ...) are positive and blocks are not empty (P06)
        if isinstance(it, ast.Call) and (dotted(it.func) or '').split('.')[-1] in ('range', 'arange') and len(it.args) == 1:
            a = it.args[0]
            d = dotted(a) or ''
            if isinstance(a, ast.Attribute) and d.startswith(f'{self.func.params[0] if self.func.params else "self"}.'):
                return True
            if isinstance(a, ast.Subscript) and isinstance(a.value, ast.Attribute) and a.value.attr == 'shape':
                return True
            if isinstance(a, ast.Call) and dotted(a.func) == 'len':
                return True
        return False

    # ------------------------------------------------ conditions
    def split(self, st, cond):
        """worlds where cond (text) is true / false"""
        t, f = set(), set()
        for v, b in st.ws:
            vals = {x: y for x, y in v}
            if cond in vals:
                (t if vals[cond] else f).add((v, b))
            else:
                t.add((v | {(cond, True)}, b))
                f.add((v | {(cond, False)}, b))
        return t, f

    def branch(self, test, st):
        c = const_bool(test)
        if c is not None:
            return (st.copy(), None) if c else (None, st.copy())
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            t, f = self.branch(test.operand, st)
            return f, t
        if isinstance(test, ast.BoolOp):
            if isinstance(test.op, ast.And):
                t, f = st.copy(), None
                for v in test.values:
                    if t is None:
                        break
                    t2, f2 = self.branch(v, t)
                    f = f2 if f is None else (f if f2 is None else f.join(f2))
                    t = t2
                return t, f
            f, t = st.copy(), None
            for v in test.values:
                if f is None:
                    break
                t2, f2 = self.branch(v, f)
                t = t2 if t is None else (t if t2 is None else t.join(t2))
                f = f2
            return t, f
        if isinstance(test, ast.NamedExpr):
            return st.copy(), st.copy()
        if isinstance(test, ast.Compare) and len(test.ops) == 1:
            op, left, right = test.ops[0], test.left, test.comparators[0]
            neg = {ast.NotEq: ast.Eq, ast.IsNot: ast.Is, ast.NotIn: ast.In}.get(type(op))
            if neg:
                t, f = self.branch(ast.Compare(left=left, ops=[neg()], comparators=[right]), st)
                return f, t
            neg = {ast.GtE: ast.Lt, ast.Gt: ast.LtE}.get(type(op))
            if neg:
                t, f = self.branch(ast.Compare(left=left, ops=[neg()], comparators=[right]), st)
                return f, t
            if isinstance(op, (ast.Eq, ast.Is)) and isinstance(right, ast.Constant):
                return self.value_test(st, left, [right.value])
            if isinstance(op, (ast.Eq, ast.Is)) and isinstance(left, ast.Constant):
                return self.value_test(st, right, [left.value])
            if isinstance(op, ast.In) and isinstance(right, (ast.Tuple, ast.List, ast.Set)) and all(isinstance(e, ast.Constant) for e in right.elts):
                return self.value_test(st, left, [e.value for e in right.elts])
        if isinstance(test, (ast.Name, ast.Attribute)):
            d = dotted(test)
            vals = self.values(self.alias.get(d, d)) if d else None
            if vals is not None and set(vals) <= {True, False}:
                return self.value_test(st, test, [True])
            if d:
                return self.truth(st, test, self.alias.get(d, d))
        return self.plain(st, test)

    def truth(self, st, test, key):
        t, f, rest = set(), set(), set()
        for v, b in st.ws:
            vals = {c[0]: c[1] for c in v}
            dom, nots = vals.get(key + '∈'), vals.get(key + '∉', ())
            if dom is not None:
                if any(dom):
                    t.add((v, b))
                if not all(dom):
                    f.add((v, b))
            elif any(not x for x in nots):
                t.add((v, b))
            else:
                rest.add((v, b))
        if rest:
            a, c = self.plain(Worlds(frozenset(rest)), test)
            t |= set(a.ws) if a is not None else set()
            f |= set(c.ws) if c is not None else set()
        return (Worlds(frozenset(t)) if t else None), (Worlds(frozenset(f)) if f else None)

    def plain(self, st, test):
        cond = ast.unparse(test)
        if cond not in self.conds:
            return st.copy(), st.copy()
        t, f = self.split(st, cond)
        return (Worlds(frozenset(t)) if t else None), (Worlds(frozenset(f)) if f else None)

    def value_test(self, st, expr, vals):
        key = dotted(expr)
        if key is None:
            return self.plain(st, ast.Compare(left=expr, ops=[ast.In()], comparators=[ast.Tuple(elts=[ast.Constant(value=v) for v in vals], ctx=ast.Load())]))
        key = self.alias.get(key, key)
        allv = self.values(key)
        t, f = set(), set()
        for v, b in st.ws:
            cur = {c[0]: c[1] for c in v}
            dom = cur.get(key + '∈')
            nots = cur.get(key + '∉', ())
            if dom is None and allv is not None:
                dom = tuple(allv)
            if dom is not None:
                yes = tuple(x for x in dom if same(x, vals))
                no = tuple(x for x in dom if not same(x, vals))
                base = frozenset(c for c in v if c[0] != key + '∈')
                if yes:
                    t.add((base | {(key + '∈', yes)}, b))
                if no:
                    f.add((base | {(key + '∈', no)}, b))
            else:
                base = frozenset(c for c in v if c[0] not in (key + '∈', key + '∉'))
                yes = tuple(x for x in vals if not same(x, nots))
                if yes:
                    t.add((base | {(key + '∈', yes)}, b))
                f.add((base | {(key + '∉', tuple(sorted(set(nots) | set(vals), key=repr)))}, b))
        return (Worlds(frozenset(t)) if t else None), (Worlds(frozenset(f)) if f else None)


def same(x, vals):
    return any(x == y and type(x) is type(y) for y in vals)


def words(text):
    out, cur = [], ''
    for ch in text:
        if ch.isalnum() or ch == '_':
            cur += ch
        else:
            if cur:
                out.append(cur)
            cur = ''
    if cur:
        out.append(cur)
    return out


def atoms(t):
    if isinstance(t, ast.BoolOp):
        return [x for v in t.values for x in atoms(v)]
    if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
        return atoms(t.operand)
    if isinstance(t, ast.Compare) and len(t.ops) == 1:
        pos = {ast.NotEq: ast.Eq, ast.IsNot: ast.Is, ast.NotIn: ast.In, ast.GtE: ast.Lt, ast.Gt: ast.LtE}.get(type(t.ops[0]))
        if pos:
            t = ast.Compare(left=t.left, ops=[pos()], comparators=t.comparators)
    return [ast.unparse(t)]


def all_funcs(prog):
    """(Func-like, class or None, qualified name) of every function including nested ones"""
    from .model import Func

    for m in prog.modules.values():
        def rec(body, cls, prefix):
            for s in body:
                if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    yield Func(m, s, cls), cls, prefix + s.name
                    yield from rec(s.body, cls, prefix + s.name + '.')
                elif isinstance(s, ast.ClassDef):
                    yield from rec(s.body, m.classes.get(s.name), prefix + s.name + '.')
                elif isinstance(s, (ast.If, ast.For, ast.While, ast.With, ast.Try)):
                    for part in ('body', 'orelse', 'finalbody'):
                        yield from rec(getattr(s, part, []) or [], cls, prefix)
                    for h in getattr(s, 'handlers', []):
                        yield from rec(h.body, cls, prefix)
        yield from rec(m.tree.body, None, '')


def trait_values(prog, R, cls, selfname):
    def values(d):
        if not d or cls is None or not d.startswith(selfname + '.'):
            return None
        path = tuple(d.split('.')[1:])
        K = cls if len(path) == 1 else R.typeof(cls, path[:-1])
        if K is None:
            return None
        t = K.find_trait(path[-1])
        for _ in range(4):
            if t is not None and t.kind == 'Delegate':
                tgt = t.arg(0).value
                nm = t.arg(1).value if t.arg(1) is not None else t.name
                K = R.typeof(K, (tgt,))
                t = K.find_trait(nm) if K else None
        if t is None:
            return None
        if t.kind == 'Bool':
            return (True, False)
        # a subclass may widen the values: take the union over the classes the method can run in
        vals = []
        for S in prog.subclasses(K):
            ts = S.find_trait(path[-1])
            if ts is None:
                continue
            v = ts.enum_values()
            if v is None:
                if ts.kind == 'Delegate':
                    continue
                return None
            for x in v:
                if not same(x, vals):
                    vals.append(x)
        return tuple(vals) or None
    return values


# call sites that pass a fixed set of literals for a parameter
def param_values(prog, func, name):
    """all literals passed for a parameter of a private function, None when unknown"""
    if not func.name.startswith('_') or func.name.startswith('__') or name not in func.params:
        return None
    idx = func.params.index(name) - (1 if func.cls is not None else 0)
    vals = []
    found = False
    for m in prog.modules.values():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Call) and (dotted(n.func) or '').split('.')[-1] == func.name:
                if func.cls is not None:
                    k = n
                    while k is not None and not isinstance(k, ast.ClassDef):
                        k = getattr(k, '_parent', None)
                    K = m.classes.get(k.name) if k is not None else None
                    if K is not None and K.find_method(func.name) is not None and not any(S.find_method(func.name) is not None and S.find_method(func.name).node is func.node for S in [K] + prog.subclasses(K)):
                        continue
                found = True
                a = n.args[idx] if 0 <= idx < len(n.args) else next((k.value for k in n.keywords if k.arg == name), None)
                if a is None:
                    a = func.default_of(name)
                if not isinstance(a, ast.Constant):
                    return None
                if not same(a.value, vals):
                    vals.append(a.value)
    return tuple(vals) if found else None


def analyse(prog):
    from .reads import Reads

    R = Reads(prog)
    for func, cls, qual in all_funcs(prog):
        selfname = func.params[0] if func.params else 'self'
        tv = trait_values(prog, R, cls, selfname)

        def values(d, tv=tv, func=func):
            if d and '.' not in d:
                return param_values(prog, func, d)
            return tv(d)

        w = Definite(prog, func, values)
        w.run(func.node, w.start())
        yield func, cls, qual, w


def check(prog, rep):
    rep.rule('definite-assignment', 'on every feasible path (all declared option values, any data, loops of any length) a local name is '
             'assigned before it is used')
    for func, cls, qual, w in analyse(prog):
        rep.count('functions')
        rep.count('use_obligations', w.checked)
        for name, n in sorted(w.uses.items()):
            rep.viol('definite-assignment', f'{func.module.name}:{qual}:{name}',
                     f'{name} may be used in {qual} before it is assigned', f'{func.module.rel}:{n.lineno} {qual}')
    rep.floor('functions', 400)
    rep.floor('use_obligations', 3000)
