"""P29: what is computed for one frequency is stored at that frequency, and flagged only afterwards."""

import ast

from .flow import Flow
from .model import dotted, walk_no_nested
from .p24 import trait_values
from .reads import Reads

# arrays whose first axis is the frequency, as attribute paths relative to the beamformer
FREQ = {('_ac',), ('_fr',), ('_f',), ('freq_data', 'csm'), ('freq_data', 'eva'), ('freq_data', 'eve')}
# (class, offset) -> reason
NEIGHBOUR_OK = {
    ('BeamformerSODIX', -1): 'the result of the previous frequency is the initial guess',
}


class S:
    def __init__(self, s):
        self.s = s

    def copy(self):
        return S(self.s)

    def join(self, o):
        return S(self.s & o.s)

    def __eq__(self, o):
        return self.s == o.s


class Fn:
    """names in one function: arrays over frequency, and the loop index"""

    def __init__(self, func, me, arrays, index):
        self.func, self.me, self.arrays, self.index = func, me, arrays, index


def path(e, fn, locs):
    """path of an array expression or None; casts are followed"""
    if isinstance(e, ast.Name):
        if e.id in locs:
            return locs[e.id]
        return fn.arrays.get(e.id)
    if isinstance(e, ast.Attribute):
        d = dotted(e)
        if d and d.startswith(fn.me + '.'):
            p = tuple(d.split('.')[1:])
            return p if p in FREQ else None
    return None


def local_arrays(f, me):
    """locals that denote a whole array over frequency"""
    cnt, val = {}, {}
    for n in walk_no_nested(f.node):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            cnt[n.id] = cnt.get(n.id, 0) + 1
        pairs = []
        if isinstance(n, ast.Assign) and len(n.targets) == 1:
            t, v = n.targets[0], n.value
            pairs = list(zip(t.elts, v.elts)) if isinstance(t, ast.Tuple) and isinstance(v, ast.Tuple) and len(t.elts) == len(v.elts) else [(t, v)]
        for t, v in pairs:
            if isinstance(t, ast.Name):
                d = dotted(v.func if isinstance(v, ast.Call) else v)
                if d and d.startswith(me + '.'):
                    p = tuple(d.split('.')[1:])
                    if p in FREQ:
                        val[t.id] = p
                    elif p == ('freq_data', 'fftfreq'):
                        val[t.id] = ('_f',)
    return {k: v for k, v in val.items() if cnt.get(k) == 1}


def index_names(f, base):
    """locals that are copies of the index"""
    out = set(base)
    for _ in range(3):
        for n in walk_no_nested(f.node):
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                v = n.value
                if isinstance(v, ast.Call) and dotted(v.func) == 'int' and len(v.args) == 1:
                    v = v.args[0]
                if isinstance(v, ast.Name) and v.id in out:
                    out.add(n.targets[0].id)
    return out


def first_index(sub):
    s = sub.slice
    return s.elts[0] if isinstance(s, ast.Tuple) and s.elts else s


def check(prog, rep):
    rep.rule('frequency-index', 'inside the loop over frequencies every array over frequency is taken at the frequency of the loop')
    rep.rule('result-before-flag', 'a frequency (grid point) is marked as calculated in every pass of the loop, and only after its result has been stored')
    rep.rule('frequency-loop', 'the loop runs over all requested frequencies')
    base = prog.cls('BeamformerBase')
    R = Reads(prog)
    if base is not None:
        for C in prog.subclasses(base):
            f = C.methods.get('_calc')
            if f is not None and len(f.params) > 1:
                calc(prog, R, C, f, rep)
    rep.floor('calculations', 8)
    rep.floor('index_obligations', 40)
    for C in prog.all_classes():
        f = C.methods.get('calc_psf')
        if f is not None:
            flags(prog, R, C, f, rep, pairs={f.params[1]: f.params[2]})


def inner_functions(node):
    return [n for n in ast.walk(node) if isinstance(n, (ast.FunctionDef, ast.Lambda))]


def calc(prog, R, C, f, rep):
    rep.count('calculations')
    me, ind = f.params[0], f.params[1]
    arrays = local_arrays(f, me)
    loops = []
    for n in walk_no_nested(f.node):
        if isinstance(n, ast.For):
            tgt, it = n.target, n.iter
            if isinstance(it, ast.Call) and dotted(it.func) == 'enumerate' and isinstance(tgt, ast.Tuple) and len(tgt.elts) == 2 and it.args:
                tgt, it = tgt.elts[1], it.args[0]
            names = {x.id for x in ast.walk(it) if isinstance(x, ast.Name)}
            touches = any(isinstance(x, ast.Attribute) and x.attr in ('_fr', '_ac') for x in ast.walk(n)) or any(
                isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Name) and x.func.value.id == me and isinstance(tgt, ast.Name)
                and any(isinstance(y, ast.Name) and y.id == tgt.id for a in x.args + [k.value for k in x.keywords] for y in ast.walk(a)) for x in ast.walk(n))
            if ind in names and isinstance(tgt, ast.Name) and touches:
                counted = ast.unparse(it) in (f'range(len({ind}))', f'range({ind}.size)', f'range({ind}.shape[0])', f'range(0, len({ind}))')
                loops.append((n, tgt.id, ast.Name(id=ind) if counted else it, counted))
    key = f'{C.name}._calc'
    if not loops and any(isinstance(n, ast.While) for n in walk_no_nested(f.node)):
        rep.notes.append(f'{key}: loop over frequencies not recognised')
        return
    if not loops:
        rep.viol('frequency-loop', key, f'{key} does not loop over the requested frequencies', f.where)
        return
    for n, i, it, counted in loops:
        ok = isinstance(it, ast.Name) or (C.name, -1) in NEIGHBOUR_OK
        if isinstance(it, ast.Call) and dotted(it.func) in ('list', 'iter', 'sorted', 'tuple', 'reversed') and len(it.args) == 1 and isinstance(it.args[0], ast.Name):
            ok = True
        if isinstance(it, ast.Subscript) and ast.unparse(it.slice) == '::-1':
            ok = True
        if not ok:
            rep.viol('frequency-loop', key, f'{key} loops over {ast.unparse(it)}, not over all requested frequencies', f'{f.module.rel}:{n.lineno} {key}')
        for x in walk_loop(n):
            if isinstance(x, (ast.Break, ast.Return)):
                rep.viol('frequency-loop', key, f'{key} leaves the loop over the frequencies early', f'{f.module.rel}:{x.lineno} {key}')
        idx = {i}
        if counted:
            idx = {f'{ind}[{i}]'}
            for x in walk_no_nested(f.node):
                if isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name) and ast.unparse(x.value) in idx:
                    idx.add(x.targets[0].id)
        indices(prog, C, f, n.body, Fn(f, me, arrays, idx), rep, key, {})
        w = Stores(prog, R, C, f, me, index_names(f, idx), {('self', '_ac'): ('self', '_fr')}, rep, key)
        w.loop(n)


def walk_loop(loop):
    """statements of a loop body; break and continue only if they belong to this loop"""
    todo = [(s, False) for s in loop.body]
    while todo:
        s, inner = todo.pop()
        if inner and isinstance(s, (ast.Break, ast.Continue)):
            continue
        yield s
        if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
            continue
        loopy = inner or isinstance(s, (ast.For, ast.While))
        for c in ast.iter_child_nodes(s):
            if isinstance(c, ast.stmt):
                todo.append((c, loopy))
            elif isinstance(c, (ast.ExceptHandler, ast.match_case)):
                todo += [(x, loopy) for x in c.body]


def indices(prog, C, f, body, fn, rep, key, done):
    idx = index_names(f, fn.index)
    for s in body:
        for x in ast.walk(s):
            if isinstance(x, ast.Subscript):
                p = path(x.value, fn, {})
                if p is None:
                    continue
                rep.count('index_obligations')
                e = first_index(x)
                if isinstance(e, ast.Call) and dotted(e.func) == 'int' and len(e.args) == 1:
                    e = e.args[0]
                if ast.unparse(e) in idx:
                    continue
                # the flags of other frequencies may be looked at as a whole
                off = offset(e, idx)
                if off is not None and (C.name, off) in NEIGHBOUR_OK:
                    continue
                rep.viol('frequency-index', f'{key}:{".".join(p)}[{ast.unparse(x.slice)}]',
                         f'{key} uses {".".join(p)} at {ast.unparse(x.slice)} while it computes the result of frequency {sorted(fn.index)[0]}', f'{f.module.rel}:{x.lineno} {key}')
            elif isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Name) and x.func.value.id == fn.me:
                g = C.find_method(x.func.attr)
                if g is None or id(g.node) in done or not g.params:
                    continue
                passed = bind(g, x)
                sub = {p for p, a in passed.items() if ast.unparse(a) in idx}
                if sub:
                    done[id(g.node)] = 1
                    arr = dict(local_arrays(g, g.params[0]))
                    for p, a in passed.items():
                        q = path(a, fn, {})
                        if q:
                            arr[p] = q
                    indices(prog, C, g, g.node.body, Fn(g, g.params[0], arr, sub), rep, f'{C.name}.{g.name}', done)


def offset(e, idx):
    if isinstance(e, ast.BinOp) and isinstance(e.op, (ast.Add, ast.Sub)) and isinstance(e.left, ast.Name) and e.left.id in idx and isinstance(e.right, ast.Constant):
        return e.right.value if isinstance(e.op, ast.Add) else -e.right.value
    return None


def bind(g, call):
    static = 'staticmethod' in g.decorator_names()
    ps = g.params if static else g.params[1:]
    out = dict(zip(ps, call.args))
    for k in call.keywords:
        if k.arg:
            out[k.arg] = k.value
    return out


class Stores(Flow):
    """must-stored results, at flags and at the end of each pass; data -> flag pairs"""

    def __init__(self, prog, R, C, f, me, idx, pairs, rep, key):
        self.prog, self.R, self.C, self.f, self.me, self.idx, self.pairs, self.rep, self.key = prog, R, C, f, me, idx, pairs, rep, key
        self.values = trait_values(prog, R, C, me)
        self.depth = 0

    def name(self, e):
        if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and e.value.id == self.me:
            return ('self', e.attr)
        if isinstance(e, ast.Name):
            return e.id
        return None

    def nonempty(self, s, st):
        return True

    def branch(self, test, st):
        if isinstance(test, ast.Compare) and len(test.ops) == 1 and isinstance(test.ops[0], ast.Eq):
            for a, b in ((test.left, test.comparators[0]), (test.comparators[0], test.left)):
                if isinstance(b, ast.Constant):
                    v = self.values(dotted(a))
                    if v is not None and len(v) == 1 and v[0] == b.value:
                        return st, None
        return super().branch(test, st)

    def put(self, t, st, node):
        if isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                self.put(x, st, node)
            return
        if isinstance(t, ast.Attribute) and t.attr == 'freq':
            st.s = st.s | {('freq', ast.unparse(t.value))}
        if not isinstance(t, ast.Subscript):
            return
        n = self.name(t.value)
        if n is None:
            return
        for d, fl in self.pairs.items():
            if n == d:
                st.s = st.s | {d}
            elif n == fl:
                self.rep.count('flag_obligations')
                if d not in st.s:
                    self.rep.viol('result-before-flag', f'{self.key}:{ast.unparse(t)}', f'{self.key} sets the flag {ast.unparse(t)} before the result has been stored on every path',
                                  f'{self.f.module.rel}:{node.lineno} {self.key}')
                st.s = st.s | {fl}

    def eval(self, e, st):
        for x in ast.walk(e):
            if isinstance(x, ast.Attribute) and x.attr == 'psf' and isinstance(x.ctx, ast.Load) and self.idx and not self.depth:
                self.rep.count('psf_obligations')
                if ('freq', ast.unparse(x.value)) not in st.s:
                    self.rep.viol('frequency-index', f'{self.key}:{ast.unparse(x)}', f'{self.key} reads {ast.unparse(x)} before its frequency has been set in this pass', f'{self.f.module.rel}:{x.lineno} {self.key}')
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Name) and x.func.value.id == self.me and self.depth < 4:
                g = self.C.find_method(x.func.attr)
                if g is None or not g.params or not any(isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store) for n in ast.walk(g.node)):
                    continue
                passed = bind(g, x)
                ren = {}
                for p, a in passed.items():
                    n = self.name(a)
                    if n is not None:
                        ren[p] = n
                w = Inlined(self, g, ren)
                o = w.run(g.node, S(st.s))
                end = None
                for r in (o.next, o.ret):
                    if r is not None:
                        end = r if end is None else end.join(r)
                if end is not None:
                    st.s = end.s

    def simple(self, s, st):
        if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
            return
        for c in ast.iter_child_nodes(s):
            if isinstance(c, ast.expr):
                self.eval(c, st)
        if isinstance(s, ast.Assign):
            for t in s.targets:
                self.put(t, st, s)

    def loop(self, n):
        o = None
        self._exc = [None]
        o = self.block(n.body, S(frozenset()))
        ends = [x for x in (o.next, o.cont) if x is not None]
        for d, fl in self.pairs.items():
            if any(fl not in x.s for x in ends):
                if self.skips_done(n, fl):
                    continue
                self.rep.viol('result-before-flag', f'{self.key}:unset', f'{self.key} has a pass of the loop that does not mark the frequency as calculated', f'{self.f.module.rel}:{n.lineno} {self.key}')

    def skips_done(self, n, fl):
        """the body is guarded by a test of the flag itself"""
        for s in n.body:
            if isinstance(s, ast.If) and any(isinstance(x, ast.Subscript) and self.name(x.value) == fl for x in ast.walk(s.test)):
                self._exc = [None]
                neg = isinstance(s.test, ast.UnaryOp) and isinstance(s.test.op, ast.Not) or isinstance(s.test, ast.Compare) and isinstance(s.test.ops[0], ast.Eq)
                if s.orelse and neg:
                    return False
                o = self.block(s.body if neg else n.body[n.body.index(s) + 1:], S(frozenset()))
                ends = [x for x in (o.next, o.cont) if x is not None]
                return all(fl in x.s for x in ends)
        return False


class Inlined(Stores):
    def __init__(self, outer, g, ren):
        Stores.__init__(self, outer.prog, outer.R, outer.C, g, g.params[0], set(), outer.pairs, outer.rep, f'{outer.C.name}.{g.name}')
        self.ren = ren
        self.depth = outer.depth + 1

    def name(self, e):
        if isinstance(e, ast.Name):
            return self.ren.get(e.id, ('local', e.id))
        return super().name(e)


def flags(prog, R, C, f, rep, pairs):
    """data and flag arrays passed as arguments"""
    rep.count('calculations')
    w = Stores(prog, R, C, f, f.params[0], set(), pairs, rep, f'{C.name}.{f.name}')
    o = w.run(f.node, S(frozenset()))
    ends = [x for x in (o.next, o.ret) if x is not None]
    for d, fl in pairs.items():
        if any(fl not in x.s for x in ends):
            rep.viol('result-before-flag', f'{C.name}.{f.name}:unset', f'{C.name}.{f.name} can end without marking anything as calculated', f.where)
    # data and flag of one step are those of the same point
    for n in walk_no_nested(f.node):
        if isinstance(n, ast.For):
            tn = {x.id for x in ast.walk(n.target) if isinstance(x, ast.Name)}
            last = {}
            for x in ast.walk(n):
                if isinstance(x, ast.Subscript) and isinstance(x.ctx, ast.Store) and isinstance(x.value, ast.Name):
                    for d, fl in pairs.items():
                        e = x.slice.elts[-1] if isinstance(x.slice, ast.Tuple) else x.slice
                        if x.value.id in (d, fl):
                            last.setdefault(d, set()).add(ast.unparse(e))
                            rep.count('index_obligations')
            for d, es in last.items():
                if len(es) > 1:
                    rep.viol('frequency-index', f'{C.name}.{f.name}:{sorted(es)}', f'{C.name}.{f.name} stores a result at one point and the flag at another: {sorted(es)}', f'{f.module.rel}:{n.lineno} {C.name}.{f.name}')
