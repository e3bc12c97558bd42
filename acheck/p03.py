"""P03: the caching policy is obeyed.

For every policy the code of every class that owns a cache file is specialised (tests of the policy are decided), and the
specialised code is searched, interprocedurally and flow-sensitively, for operations on the cache file.
"""

import ast

from .flow import Flow
from .model import dotted, walk_no_nested
from .p16 import UNKNOWN, Fold, aliases, clone, table_of

WRITE = {'create_extendable_array', 'create_compressible_array', 'create_new_group', 'create_array', 'create_group', 'create_dataset', 'create_carray', 'create_earray',
         'append_data', 'remove_data', 'remove_node', 'set_node_attribute'}
CREATE = {'create_extendable_array', 'create_compressible_array', 'create_new_group'}

# (policy, value of the trait cached) -> may the file be used, may it be changed
POLICIES = [
    ('none', None, False, False),
    ('readonly', None, True, False),
    ('individual', False, False, False),
    ('individual', True, True, True),
    ('all', False, True, True),
    ('all', True, True, True),
    ('overwrite', False, True, True),
    ('overwrite', True, True, True),
]


class PolicyFold(Fold):
    def __init__(self, C, f, policy, cached):
        Fold.__init__(self, f.params[0] if f.params else None, None, policy, aliases(f), lambda e: None)
        self.C, self.f, self.cached, self.depth = C, f, cached, 0

    def is_opt(self, e):
        if isinstance(e, ast.Name) and e.id in self.al:
            e = self.al[e.id]
        return dotted(e) in ('config.global_caching', 'self.config.global_caching', 'config._global_caching')

    def visit_Attribute(self, n):
        return self.generic_visit(n)

    def visit_Name(self, n):
        return n

    def visit_JoinedStr(self, n):
        return n

    def visit_Assign(self, n):
        return self.generic_visit(n)

    def is_cached_trait(self, t):
        if isinstance(t, ast.Name) and t.id in self.al:
            t = self.al[t.id]
        return isinstance(t, ast.Attribute) and t.attr == 'cached' and isinstance(t.value, ast.Name) and t.value.id == self.me

    def live_values(self, body, name):
        """values a local receives in statements the policy does not rule out"""
        for s in body:
            if isinstance(s, ast.If):
                v = self.truth(s.test)
                yield from self.live_values(s.body if v is not False else [], name)
                yield from self.live_values(s.orelse if v is not True else [], name)
                continue
            for b in ('body', 'orelse', 'finalbody'):
                if not isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                    yield from self.live_values(getattr(s, b, []), name)
            if isinstance(s, ast.Assign) and any(isinstance(x, ast.Name) and x.id == name for x in s.targets):
                yield s.value

    def truth(self, t):
        if self.cached is not None:
            if self.is_cached_trait(t):
                return self.cached
            if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.comparators[0], ast.Constant) and self.is_cached_trait(t.left):
                same = self.cached == t.comparators[0].value
                return same if isinstance(t.ops[0], (ast.Eq, ast.Is)) else not same if isinstance(t.ops[0], (ast.NotEq, ast.IsNot)) else UNKNOWN
        # a predicate that is kept in a local or in a method of its own
        if isinstance(t, ast.Name) and self.depth < 4:
            self.depth += 1
            truths = {self.truth(v) for v in self.live_values(self.f.node.body, t.id)}
            self.depth -= 1
            if len(truths) == 1 and t.id not in self.f.params:
                return truths.pop()
        g = None
        if isinstance(t, ast.Call) and isinstance(t.func, ast.Attribute) and isinstance(t.func.value, ast.Name) and t.func.value.id == self.me and not t.args and self.C is not None:
            g = self.C.find_method(t.func.attr)
        elif isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == self.me and self.C is not None:
            g = self.C.find_method(f'_get_{t.attr}') or self.C.find_method(t.attr)
        if g is not None and self.depth < 4 and g.params:
            fo = PolicyFold(self.C, g, self.value, self.cached)
            fo.depth = self.depth + 1
            body = fo.body([clone(s) for s in g.node.body])
            body = [s for s in body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
            if len(body) == 1 and isinstance(body[0], ast.Return) and body[0].value is not None:
                fo2 = PolicyFold(self.C, g, self.value, self.cached)
                fo2.depth = self.depth + 1
                return fo2.truth(body[0].value)
        return super().truth(t)


class St:
    """one world: var -> tags, the state of the node in the file: ? (unknown), old, absent or fresh, and the
    locals that hold the outcome of a test of that state"""

    def __init__(self, d=None, key='?'):
        self.node, self.facts = parts(key)
        self.d, self.nodes = dict(d or {}), None

    def keys(self):
        return [joined(m, self.facts) for m in self.nodes or [self.node]]


def parts(key):
    node, *facts = key.split('|')
    return node, dict(x.split('=') for x in facts)


def joined(node, facts):
    return '|'.join([node] + [f'{k}={v}' for k, v in sorted(facts.items())])


class Worlds:
    def __init__(self, w):
        self.w = w

    def copy(self):
        return Worlds({n: dict(d) for n, d in self.w.items()})

    def put(self, node, d):
        old = self.w.setdefault(node, {})
        for k, v in d.items():
            old[k] = old.get(k, frozenset()) | v

    def join(self, o):
        r = self.copy()
        for n, d in o.w.items():
            r.put(n, d)
        return r

    def __eq__(self, o):
        return self.w == o.w

    def each(self, fn):
        """apply fn to every world; a world may end in several states of the node"""
        out = Worlds({})
        for n, d in self.w.items():
            st = St(d, n)
            fn(st)
            for m in st.keys():
                out.put(m, st.d)
        self.w = out.w


class Policy:
    def __init__(self, prog, C, policy, cached, report):
        self.prog, self.C, self.policy, self.cached, self.report = prog, C, policy, cached, report
        self.attrs = {}
        self.memo = {}
        self.folded = {}
        self.reaches_file = False
        self.ops = 0
        self.changed = False

    def code(self, f):
        if id(f.node) not in self.folded:
            node = clone(f.node)
            node.body = PolicyFold(self.C, f, self.policy, self.cached).body(node.body) or [ast.Pass()]
            self.folded[id(f.node)] = node
        return self.folded[id(f.node)]

    def run(self, f, args, node):
        """-> (return tags: list of per-element sets or a set, node state)"""
        key = (id(f.node), tuple(sorted((k, v) for k, v in args.items())), node)
        if key in self.memo:
            return self.memo[key]
        self.memo[key] = ((), frozenset([node]))
        w = Walk(self, f, args, node)
        self.memo[key] = w.result()
        return self.memo[key]


class Walk(Flow):
    def __init__(self, P, f, args, node):
        self.P, self.f = P, f
        self.me = f.params[0] if f.params else None
        self.rets = []
        self.endnode = frozenset()
        o = self.run(P.code(f), Worlds({node: {k: frozenset(v) for k, v in args.items()}}))
        for x in (o.next, o.ret):
            if x is not None:
                self.endnode = self.endnode | frozenset(parts(k)[0] for k in x.w)

    def result(self):
        n = max((len(r) for r in self.rets if isinstance(r, list)), default=0)
        if n:
            out = [frozenset()] * n
            for r in self.rets:
                for i in range(n):
                    out[i] = out[i] | (r[i] if isinstance(r, list) and i < len(r) else frozenset())
            return tuple(out), self.endnode
        return frozenset().union(*[r for r in self.rets if not isinstance(r, list)]), self.endnode

    # ------------------------------------------------------------ expressions
    def tags(self, e, st):
        if isinstance(e, ast.Name):
            return st.d.get(e.id, frozenset())
        if isinstance(e, ast.Constant):
            return frozenset([f'const:{e.value}']) if isinstance(e.value, str) else frozenset()
        if isinstance(e, ast.Attribute):
            if isinstance(e.value, ast.Name) and e.value.id == self.me:
                if self.P.C is not None and self.P.C.find_method(e.attr) is not None:
                    return frozenset([f'meth:{e.attr}'])
                return self.P.attrs.get(e.attr, frozenset())
            return frozenset()
        if isinstance(e, ast.IfExp):
            return self.tags(e.body, st) | self.tags(e.orelse, st)
        if isinstance(e, ast.BoolOp):
            return frozenset().union(*[self.tags(x, st) for x in e.values])
        if isinstance(e, ast.NamedExpr):
            return self.tags(e.value, st)
        if isinstance(e, ast.Call):
            r = self.call(e, st)
            return r if isinstance(r, frozenset) else frozenset().union(*r) if r else frozenset()
        return frozenset()

    def h5f(self, e):
        d = dotted(e)
        return d is not None and (d.endswith('.h5f') or d == 'h5f')

    def op(self, what, node):
        self.P.ops += 1
        self.P.report(self.P, self.f, what, node)

    def call(self, e, st):
        fn = e.func
        d = dotted(fn) or ''
        name = d.split('.')[-1] if d else fn.attr if isinstance(fn, ast.Attribute) else ''
        if name == 'get_cache_file':
            self.P.reaches_file = True
            self.op('open', e)
            return frozenset()
        if isinstance(fn, ast.Attribute) and self.h5f(fn.value):
            if name in WRITE:
                self.op('write', e)
            if name == 'get_data_by_reference':
                self.op('get', e)
                if st.node == 'old' and self.P.policy == 'overwrite':
                    self.op('stale', e)
                if st.node == 'absent':
                    self.op('missing', e)
                return frozenset(['ds'])
            if name in CREATE and st.node == 'old':
                self.op('exists', e)
            if name in CREATE:
                st.node, st.nodes = 'fresh', None
            if name == 'remove_data':
                st.node, st.nodes = 'absent', None
            return frozenset()
        # methods of the object, directly or through a local
        targets = []
        if isinstance(fn, ast.Attribute) and isinstance(fn.value, ast.Name) and fn.value.id == self.me:
            targets = [fn.attr]
        elif isinstance(fn, ast.Name):
            targets = [t[5:] for t in st.d.get(fn.id, ()) if t.startswith('meth:')]
        elif isinstance(fn, ast.Attribute) and isinstance(fn.value, ast.Call) and dotted(fn.value.func) == 'super':
            g = self.P.C.find_method(fn.attr, after=self.f.cls) if self.f.cls in self.P.C.mro() else None
            if g is not None:
                return self.enter([g], e, st)
        gs = [self.P.C.find_method(t) for t in targets] if self.P.C is not None else []
        gs = [g for g in gs if g is not None]
        if gs:
            return self.enter(gs, e, st)
        if name == '_get_cachefile_class':
            return frozenset(['file_cls'])
        direct = isinstance(fn, ast.Call) and (dotted(fn.func) or '').endswith('_get_cachefile_class')
        if direct or isinstance(fn, ast.Name) and 'file_cls' in st.d.get(fn.id, ()):
            mode = e.args[1] if len(e.args) > 1 else next((k.value for k in e.keywords if k.arg == 'mode'), None)
            tags = self.tags(mode, st) if mode is not None else frozenset(['const:default'])
            if tags != frozenset(['const:r']):
                self.op('mode', e)
            else:
                self.op('open', e)
        return frozenset()

    def enter(self, gs, e, st):
        out, nodes = None, frozenset()
        for g in gs:
            static = 'staticmethod' in g.decorator_names()
            ps = g.params if static else g.params[1:]
            args = {p: self.tags(g.default_of(p), st) for p in ps if g.default_of(p) is not None}
            args.update({p: self.tags(a, st) for p, a in zip(ps, e.args)})
            for k in e.keywords:
                if k.arg:
                    args[k.arg] = self.tags(k.value, st)
            r, n = None, frozenset()
            for node in st.nodes or [st.node]:
                r, m = self.P.run(g, {k: v for k, v in args.items() if v}, node)
                n = n | m
            nodes = nodes | n
            if out is None:
                out = r
            elif isinstance(out, tuple) and isinstance(r, tuple) and len(r) == len(out):
                out = tuple(a | b for a, b in zip(out, r))
            elif isinstance(out, frozenset) and isinstance(r, frozenset):
                out = out | r
        if nodes:
            st.nodes = sorted(nodes)
            st.node = st.nodes[0]
        return out if out is not None else frozenset()

    def eval(self, e, ws):
        ws.each(lambda st: self.eval1(e, st))

    def simple(self, s, ws):
        t = s.targets[0] if isinstance(s, ast.Assign) and len(s.targets) == 1 else None
        if isinstance(t, ast.Name) and any(isinstance(x, ast.Attribute) and x.attr == 'is_cached' for x in ast.walk(s.value)):
            self.eval(s.value, ws)
            out = Worlds({})
            for n, d in ws.w.items():
                for v, keys in zip((1, 0), self.split(s.value, n)):
                    for k in keys:
                        node, facts = parts(k)
                        out.put(joined(node, {**facts, t.id: v}), d)
            ws.w = out.w
            return
        ws.each(lambda st: self.simple1(s, st))

    def on_return(self, s, ws):
        ws.each(lambda st: self.return1(s, st))

    def eval1(self, e, st):
        """calls inside an expression that is not looked at as a whole"""
        for x in ast.walk(e):
            if isinstance(x, ast.Call):
                self.call(x, st)
            elif isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Load) and isinstance(x.value, ast.Name) and x.value.id == self.me:
                pass

    def branch(self, test, ws):
        yes, no = Worlds({}), Worlds({})
        for n, d in ws.w.items():
            a, b = self.split(test, n)
            for m in a:
                yes.put(m, d)
            for m in b:
                no.put(m, d)
        return (yes if yes.w else None), (no if no.w else None)

    def split(self, t, n):
        """states of the node if the test is true, if it is false"""
        if isinstance(t, ast.Constant):
            return ([n], []) if t.value else ([], [n])
        if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            a, b = self.split(t.operand, n)
            return b, a
        if isinstance(t, ast.BoolOp):
            cur, out = [n], []
            for v in t.values:
                nxt = []
                for m in cur:
                    a, b = self.split(v, m)
                    nxt += a if isinstance(t.op, ast.And) else b
                    out += b if isinstance(t.op, ast.And) else a
                cur = nxt
            return (cur, out) if isinstance(t.op, ast.And) else (out, cur)
        if isinstance(t, ast.Call) and isinstance(t.func, ast.Attribute) and t.func.attr == 'is_cached' and self.h5f(t.func.value):
            node, facts = parts(n)
            yes, no = {'?': (['old'], ['absent']), 'old': (['old'], []), 'absent': ([], ['absent']), 'fresh': (['fresh'], [])}[node]
            return [joined(m, facts) for m in yes], [joined(m, facts) for m in no]
        if isinstance(t, ast.Name) and t.id in parts(n)[1]:
            return ([n], []) if parts(n)[1][t.id] in (1, '1') else ([], [n])
        return [n], [n]

    def assign(self, t, v, st):
        if isinstance(t, ast.Name):
            st.facts.pop(t.id, None)
            st.d[t.id] = v if isinstance(v, frozenset) else frozenset().union(*v) if v else frozenset()
        elif isinstance(t, ast.Attribute):
            if isinstance(t.value, ast.Name) and t.value.id == self.me:
                v = v if isinstance(v, frozenset) else frozenset().union(*v) if v else frozenset()
                v = frozenset(x for x in v if x == 'ds')
                if not v <= self.P.attrs.get(t.attr, frozenset()):
                    self.P.attrs[t.attr] = self.P.attrs.get(t.attr, frozenset()) | v
                    self.P.changed = True
        elif isinstance(t, (ast.Tuple, ast.List)):
            for i, x in enumerate(t.elts):
                self.assign(x, v[i] if isinstance(v, (tuple, list)) and i < len(v) else v if isinstance(v, frozenset) else frozenset(), st)
        elif isinstance(t, ast.Subscript):
            if 'ds' in self.tags(t.value, st):
                self.op('write', t)

    def value(self, e, st):
        if isinstance(e, (ast.Tuple, ast.List)):
            return [self.tags(x, st) for x in e.elts]
        if isinstance(e, ast.Call):
            for a in list(e.args) + [k.value for k in e.keywords]:
                self.eval1(a, st)
            return self.call(e, st)
        self.eval1(e, st)
        if isinstance(e, ast.Subscript):
            return frozenset()
        return self.tags(e, st)

    def simple1(self, s, st):
        if isinstance(s, ast.Assign):
            v = self.value(s.value, st)
            for t in s.targets:
                self.assign(t, v, st)
        elif isinstance(s, ast.AugAssign):
            self.eval1(s.value, st)
            if isinstance(s.target, ast.Subscript) and 'ds' in self.tags(s.target.value, st):
                self.op('write', s)
        elif isinstance(s, ast.AnnAssign) and s.value is not None:
            self.assign(s.target, self.value(s.value, st), st)
        elif isinstance(s, (ast.FunctionDef, ast.ClassDef)):
            return
        elif isinstance(s, ast.Delete):
            for t in s.targets:
                if isinstance(t, ast.Subscript) and self.h5f(t.value):
                    self.op('write', s)
        else:
            for c in ast.iter_child_nodes(s):
                if isinstance(c, ast.expr):
                    self.eval1(c, st)

    def return1(self, s, st):
        if s.value is not None:
            v = [self.tags(x, st) for x in s.value.elts] if isinstance(s.value, ast.Tuple) else self.tags(s.value, st) if not isinstance(s.value, ast.Subscript) else frozenset()
            self.rets.append(v if isinstance(v, list) else v)


def owners(prog):
    """classes that hold a reference to a cache file"""
    out = []
    for C in prog.all_classes():
        if not C.is_traits:
            continue
        t = C.find_trait('h5f')
        K = t.instance_class(prog) if t is not None else None
        if K is not None and K.name == 'H5CacheFileBase' and any('get_cache_file' in ast.dump(f.node) for K in C.mro() for f in K.methods.values()):
            out.append(C)
    return out


def check(prog, rep):
    rep.rule('policy-none', 'under the policies "none" (and "individual" for an object that is not cached) no cache file is opened, read or written')
    rep.rule('policy-readonly', 'under the policy "readonly" nothing is created, removed or changed in a cache file')
    rep.rule('policy-overwrite', 'under the policy "overwrite" a former entry is removed before anything is taken from the file')
    rep.rule('policy-active', 'under the policies "all" and "overwrite" (and "individual" for a cached object) results are looked up and kept in the cache file')
    rep.rule('cache-node', 'a node is created only when it does not exist and taken only when it does')
    cfg = prog.cls('Config')
    declared = cfg.find_trait('_global_caching').enum_values() if cfg and cfg.find_trait('_global_caching') else None
    if declared is not None and set(declared) != {p[0] for p in POLICIES}:
        rep.viol('policy-active', f'policies:{sorted(set(declared) ^ {p[0] for p in POLICIES})}', f'caching policies {declared} differ from the documented ones', cfg.where)
    for C in owners(prog):
        rep.count('cache_classes')
        has_cached = C.find_trait('cached') is not None and len(C.find_trait('cached').enum_values() or (1, 2)) > 1
        fixed = C.find_trait('cached').enum_values() if C.find_trait('cached') is not None else None
        for policy, cached, use, change in POLICIES:
            if not has_cached:
                if C.find_trait('cached') is None and policy == 'individual':
                    continue  # such classes always cache when asked to
                if fixed == [False] and not (policy in ('none', 'readonly') or cached is False):
                    continue
            seen = {}

            def report(P, f, what, node, use=use, change=change, policy=policy, cached=cached, seen=seen):
                rep.count('operations')
                label = policy if cached is None or not has_cached else f'{policy} (cached={cached})'
                where = f'{f.module.rel}:{node.lineno} {f.qual}'
                txt = ast.unparse(node)[:80]
                if what in ('open', 'get', 'write') and not use:
                    rep.viol('policy-none', f'{f.qual}:{policy}:{what}', f'{C.name} ({f.qual}) uses the cache file under the policy {label}: {txt}', where)
                if what == 'write' and use and not change:
                    rep.viol('policy-readonly', f'{f.qual}:{txt}', f'{C.name} ({f.qual}) changes the cache file under the policy {label}: {txt}', where)
                if what == 'stale':
                    rep.viol('policy-overwrite', f'{f.qual}', f'{C.name} ({f.qual}) can take a former entry from the cache file under the policy {label}: {txt}', where)
                if what == 'exists' and change:
                    rep.viol('cache-node', f'{f.qual}:{what}:{txt}', f'{C.name} ({f.qual}) creates a node that can exist already under the policy {label}: {txt}', where)
                if what == 'missing' and use:
                    rep.viol('cache-node', f'{f.qual}:{what}:{txt}', f'{C.name} ({f.qual}) takes a node that does not exist under the policy {label}: {txt}', where)
            P = Policy(prog, C, policy, cached, lambda *a: None)
            entries = [f for n, f in sorted(C.all_methods().items()) if f.params and (n.startswith('_get_') and not n.endswith('digest') and C.find_trait(n[5:]) is not None or not n.startswith('_') or n == '_calc')]
            # helpers that receive arrays are analysed where they are called
            entries = [f for f in entries if f.name != 'calc_psf']
            for _ in range(5):
                P.changed = False
                P.memo = {}
                for f in entries:
                    P.run(f, {}, '?')
                if not P.changed:
                    break
            P.report, P.memo, P.reaches_file = report, {}, False
            for f in entries:
                P.run(f, {}, '?')
            rep.count('policy_runs')
            if change and not P.reaches_file and C.find_trait('cached') is not None and fixed != [False]:
                rep.viol('policy-active', f'{C.name}:{policy}:{cached}', f'{C.name} does not use the cache file under the policy {policy} (cached={cached})', C.where)
    K = prog.cls('HDF5Cache')
    if K is None:
        rep.viol('policy-readonly', 'HDF5Cache', 'the registry of cache files is missing')
    else:
        def report(P, f, what, node):
            rep.count('operations')
            if what == 'mode':
                rep.viol('policy-readonly', f'{f.qual}:mode', f'{f.qual} opens a cache file for writing under the policy readonly: {ast.unparse(node)}', f'{f.module.rel}:{node.lineno} {f.qual}')
        P = Policy(prog, K, 'readonly', None, report)
        f = K.find_method('get_cache_file')
        if f is not None:
            P.run(f, {p: frozenset([f'const:{f.default_of(p).value}']) for p in f.params if isinstance(f.default_of(p), ast.Constant)}, '?')
            rep.count('policy_runs')
    rep.floor('cache_classes', 10)
    rep.floor('operations', 300)
