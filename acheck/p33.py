"""P33: every element of an array takes part."""

import ast
import re

from .flow import Flow, MapState
from .model import dotted, walk_no_nested
from .p24 import all_funcs


# ---------------------------------------------------------------- the last element is not taken for all
class Stale(Flow):
    """which loop variables hold the value of the last round of a loop that has run to its end"""

    def __init__(self, fn, report):
        self.fn, self.report = fn, report

    def targets(self, t):
        return [n.id for n in ast.walk(t) if isinstance(n, ast.Name)]

    def bind_for(self, node, st):
        for x in self.targets(node.target):
            st.d[x] = frozenset({'live'})

    def for_end(self, node, st):
        for x in self.targets(node.target):
            st.d[x] = frozenset({('stale', node.lineno)})

    def eval(self, e, st):
        bound = set()
        for n in ast.walk(e):
            if isinstance(n, ast.comprehension):
                bound |= set(self.targets(n.target))
            elif isinstance(n, ast.Lambda):
                bound |= {a.arg for a in n.args.args}
        for n in ast.walk(e):
            if isinstance(n, ast.Name) and n.id not in bound:
                if isinstance(n.ctx, ast.Load):
                    for f in st.d.get(n.id, ()):
                        if f != 'live' and f != 'set':
                            self.report(n, f[1])
                else:
                    st.d[n.id] = frozenset({'set'})

    def simple(self, s, st):
        if isinstance(s, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
            return
        if isinstance(s, ast.Assign):
            self.eval(s.value, st)
            for t in s.targets:
                self.eval(t, st)
        elif isinstance(s, ast.AugAssign):
            self.eval(s.value, st)
            if isinstance(s.target, ast.Name):
                self.eval(ast.Name(s.target.id, ast.Load(), lineno=s.lineno), st)
                st.d[s.target.id] = frozenset({'set'})
            else:
                self.eval(s.target, st)
        else:
            self.eval(s, st)

    def bind_name(self, name, st):
        st.d[name] = frozenset({'set'})


def indexish(fn, node):
    """the loop runs over positions or elements (not over blocks of a source or iterations)"""
    it = node.iter
    if isinstance(it, ast.Call):
        f = it.func
        if isinstance(f, ast.Name) and f.id in ('range', 'prange', 'xrange', 'enumerate', 'zip', 'reversed'):
            return True
        d = dotted(f) or ''
        if d.split('.')[-1] in ('arange', 'ndindex', 'prange'):
            return True
        return isinstance(f, ast.Attribute) and f.attr in ('items', 'keys', 'values')
    return True


def check_last(prog, rep):
    rep.rule('last-for-all', 'the loop variable of a finished loop is not used as if it stood for every element')
    for func, C, qual in all_funcs(prog):
        loops = [n for n in walk_no_nested(func.node) if isinstance(n, ast.For)]
        if not loops:
            continue
        rep.count('element_loops', len(loops))
        by_line = {n.lineno: n for n in loops}

        def report(n, line, func=func, qual=qual, by_line=by_line):
            lp = by_line.get(line)
            if lp is None or not indexish(func.node, lp):
                return
            p = getattr(n, '_parent', None)
            if isinstance(p, ast.BinOp) and isinstance(p.op, ast.Add) and any(isinstance(x, ast.Constant) and x.value == 1 for x in (p.left, p.right)):
                return  # the number of rounds
            rep.viol('last-for-all', f'{qual}:{n.id}', f'{n.id} is used after the loop over {ast.unparse(lp.iter)} has finished: only the last element takes part',
                     f'{func.module.rel}:{n.lineno} {qual}')

        Stale(func.node, report).run(func.node, MapState())
        for lp in loops:
            for v, line in last_results(func.node, lp):
                rep.viol('last-for-all', f'{qual}:{v}', f'{v} is computed in every pass of the loop over {ast.unparse(lp.iter)} but only used after the loop: only the last element takes part',
                         f'{func.module.rel}:{line} {qual}')


def last_results(fn, lp):
    """locals that every pass of a loop computes anew from its element and that are only used after the loop"""
    body = [x for b in lp.body for x in ast.walk(b)]
    inside = set(map(id, body))
    if any(isinstance(x, (ast.Break, ast.Return, ast.Yield, ast.YieldFrom)) for x in body):
        return
    elem = {x.id for x in ast.walk(lp.target) if isinstance(x, ast.Name)}
    for s in lp.body:
        if not (isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and isinstance(s.value, (ast.Call, ast.BinOp))):
            continue
        v = s.targets[0].id
        if not any(isinstance(x, ast.Name) and x.id in elem for x in ast.walk(s.value)) or any(isinstance(x, ast.Attribute) and x.attr in ('shape', 'size') for x in ast.walk(s.value)) \
                or isinstance(s.value, ast.Call) and dotted(s.value.func) in ('len', 'int', 'max', 'min', 'float'):
            continue
        uses = [x for x in ast.walk(fn) if isinstance(x, ast.Name) and x.id == v and x is not s.targets[0]]
        if any(id(x) in inside for x in uses) or any(isinstance(x.ctx, ast.Store) for x in uses):
            continue
        after = [x for x in uses if x.lineno > (lp.end_lineno or lp.lineno)]
        if after:
            yield v, after[0].lineno


# ---------------------------------------------------------------- ranges
class Lin:
    """linear form over size expressions"""

    def __init__(self, d=None):
        self.d = {k: v for k, v in (d or {}).items() if v}

    def __add__(self, o):
        r = dict(self.d)
        for k, v in o.d.items():
            r[k] = r.get(k, 0) + v
        return Lin(r)

    def scale(self, c):
        return Lin({k: v * c for k, v in self.d.items()})

    def __sub__(self, o):
        return self + o.scale(-1)

    @property
    def const(self):
        return self.d.get('', 0)

    def atoms(self):
        return {k: v for k, v in self.d.items() if k}

    def is_const(self):
        return not self.atoms()

    def __eq__(self, o):
        return self.d == o.d


class Sizes:
    """expressions of a function as linear forms, locals bound once replaced by what they stand for"""

    def __init__(self, fn):
        self.fn = fn
        stores = {}
        self.defs = {}
        for n in ast.walk(fn):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                stores[n.id] = stores.get(n.id, 0) + 1
        for n in ast.walk(fn):
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name) and stores.get(t.id) == 1:
                        self.defs[t.id] = n.value
                    elif isinstance(t, ast.Tuple):
                        for i, e in enumerate(t.elts):
                            if not (isinstance(e, ast.Name) and stores.get(e.id) == 1):
                                continue
                            if isinstance(n.value, ast.Attribute) and n.value.attr == 'shape':
                                self.defs[e.id] = ast.Subscript(n.value, ast.Constant(i), ast.Load())
                            elif isinstance(n.value, ast.Tuple) and len(n.value.elts) == len(t.elts):
                                self.defs[e.id] = n.value.elts[i]
        self.params = {a.arg for a in fn.args.args} if isinstance(fn, (ast.FunctionDef, ast.AsyncFunctionDef)) else set()

    def lin(self, e, depth=0):
        if isinstance(e, ast.Constant) and isinstance(e.value, int) and not isinstance(e.value, bool):
            return Lin({'': e.value})
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.USub):
            v = self.lin(e.operand, depth)
            return None if v is None else v.scale(-1)
        if isinstance(e, ast.BinOp):
            a, b = self.lin(e.left, depth), self.lin(e.right, depth)
            if a is None or b is None:
                return None
            if isinstance(e.op, ast.Add):
                return a + b
            if isinstance(e.op, ast.Sub):
                return a - b
            if isinstance(e.op, ast.Mult):
                if a.is_const():
                    return b.scale(a.const)
                if b.is_const():
                    return a.scale(b.const)
            return Lin({f'({self.text(e)})': 1})
        if isinstance(e, ast.Name) and e.id in self.defs and depth < 6:
            v = self.defs[e.id]
            if isinstance(v, (ast.Name, ast.Constant, ast.BinOp, ast.Attribute, ast.Subscript, ast.UnaryOp, ast.Call)):
                return self.lin(v, depth + 1)
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == 'int' and len(e.args) == 1:
            return self.lin(e.args[0], depth)
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == 'len' and len(e.args) == 1:
            return Lin({f'{self.text(e.args[0])}.shape[0]': 1})
        if isinstance(e, ast.Starred):
            return None
        return Lin({self.text(e): 1})

    def text(self, e):
        t = ast.unparse(e)
        for n in ast.walk(e):
            if isinstance(n, ast.Name) and isinstance(self.defs.get(n.id), ast.Attribute) and self.defs[n.id].attr in ('shape', 'size', 'num_mics', 'num_channels'):
                t = re.sub(rf'(?<![\w.]){n.id}(?!\w)', ast.unparse(self.defs[n.id]), t)
        return t


def sizelike(atom):
    a = atom.split('.')[-1]
    return '.shape[' in atom or a.startswith(('num_', '_num', 'num')) or a in ('size', 'nxsteps', 'nysteps', 'nzsteps')


def limit(S, e):
    """the number of passes of a loop for large arrays, with max(1, n - 1) as n - 1 and min(n, 8) as less than n"""
    if isinstance(e, ast.Name) and isinstance(S.defs.get(e.id), ast.expr):
        e = S.defs[e.id]
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ('max', 'min') and len(e.args) == 2 and not e.keywords:
        vs = [S.lin(a) for a in e.args]
        if all(v is not None for v in vs) and sum(v.is_const() for v in vs) == 1:
            v = next(v for v in vs if not v.is_const())
            return v if e.func.id == 'max' else v - Lin({'': 1})
    return S.lin(e)


def while_range(S, fn, node):
    """(index variable, lo, hi) of  i = lo; while i < hi: ...; i += 1"""
    t = node.test
    if not (isinstance(t, ast.Compare) and len(t.ops) == 1):
        return None
    l, op, r = t.left, t.ops[0], t.comparators[0]
    if isinstance(op, (ast.Gt, ast.GtE)) and isinstance(r, ast.Name):
        l, r, op = r, l, ast.Lt() if isinstance(op, ast.Gt) else ast.LtE()
    if not (isinstance(l, ast.Name) and isinstance(op, (ast.Lt, ast.LtE, ast.NotEq))):
        return None
    steps = [n for n in ast.walk(node) if isinstance(n, ast.Name) and n.id == l.id and isinstance(n.ctx, ast.Store)]
    last = node.body[-1]
    if len(steps) != 1 or not (isinstance(last, ast.AugAssign) and isinstance(last.op, ast.Add) and last.target is steps[0] and isinstance(last.value, ast.Constant) and last.value.value == 1):
        return None
    inits = [n for n in walk_no_nested(fn) if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and n.targets[0].id == l.id and n.lineno < node.lineno]
    if len(inits) != 1 or any(isinstance(x, (ast.Break, ast.Continue)) for x in ast.walk(node)):
        return None
    lo, hi = S.lin(inits[0].value), limit(S, r)
    if lo is None or hi is None:
        return None
    return l.id, lo, hi + Lin({'': 1}) if isinstance(op, ast.LtE) else hi


def loop_range(S, node):
    """(index variable, lo, hi) of a loop (or comprehension) over consecutive integers"""
    it, t = node.iter, node.target
    rev = False
    if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == 'reversed' and it.args:
        it = it.args[0]
    if not isinstance(it, ast.Call):
        return None
    name = (dotted(it.func) or '').split('.')[-1]
    if name in ('range', 'prange', 'xrange', 'arange') and isinstance(t, ast.Name) and not any(isinstance(a, ast.Starred) for a in it.args):
        args = [a for a in it.args]
        lo, step = ast.Constant(0), 1
        if len(args) == 1:
            hi = args[0]
        elif len(args) >= 2:
            lo, hi = args[:2]
            if len(args) == 3:
                v = S.lin(args[2])
                if v is None or not v.is_const() or v.const not in (1, -1):
                    return None
                step = v.const
        else:
            return None
        lo, hi = S.lin(lo), limit(S, hi)
        if lo is None or hi is None:
            return None
        if step == -1:
            lo, hi = hi + Lin({'': 1}), lo + Lin({'': 1})
        return t.id, lo, hi
    if name == 'enumerate' and isinstance(t, ast.Tuple) and isinstance(t.elts[0], ast.Name) and it.args:
        start = it.args[1] if len(it.args) > 1 else next((k.value for k in it.keywords if k.arg == 'start'), ast.Constant(0))
        lo = S.lin(start)
        x, cut = it.args[0], 0
        if isinstance(x, ast.Subscript) and isinstance(x.slice, ast.Slice) and x.slice.step is None:
            for b, sign in ((x.slice.lower, 1), (x.slice.upper, -1)):
                b = S.lin(b) if b is not None else Lin()
                if b is None or not b.is_const() or b.const * sign < 0:
                    return None
                cut += b.const * sign
            x = x.value
        n = Lin({f'{S.text(x)}.shape[0]': 1, '': -cut})
        return (t.elts[0].id, lo, lo + n) if lo is not None else None
    return None


def blockwise(S, e, var):
    """is the slice the part number var of equal parts:  var*k : (var+1)*k"""
    if e.lower is None or e.upper is None or e.step is not None:
        return False
    def parts(x):
        """x = (var + c) * k -> (c, k)"""
        if isinstance(x, ast.BinOp) and isinstance(x.op, ast.Mult):
            for a, k in ((x.left, x.right), (x.right, x.left)):
                c = coef(S, a, var)
                if c is not None and c[0] == 1 and c[1].is_const() and not any(isinstance(n, ast.Name) and n.id == var for n in ast.walk(k)):
                    return c[1].const, S.text(k)
        return None
    lo, hi = parts(e.lower), parts(e.upper)
    if hi is None and lo is not None and isinstance(e.upper, ast.BinOp) and isinstance(e.upper.op, ast.Add):
        for a, b in ((e.upper.left, e.upper.right), (e.upper.right, e.upper.left)):
            if parts(a) == lo and S.text(b) == lo[1]:
                hi = (lo[0] + 1, lo[1])
    return lo is not None and hi is not None and lo[0] == 0 and hi == (1, lo[1])


def index_elts(sub):
    s = sub.slice
    return list(s.elts) if isinstance(s, ast.Tuple) else [s]


def coef(S, e, var):
    """(coefficient of var, rest) of an index expression, or None"""
    if not any(isinstance(n, ast.Name) and n.id == var for n in ast.walk(e)):
        return (0, None)
    saved = S.defs.pop(var, None)
    v = S.lin(e)
    if saved is not None:
        S.defs[var] = saved
    if v is None:
        return None
    c = v.d.get(var, 0)
    rest = v - Lin({var: c})
    if any(var in k.replace('.', ' ').replace('(', ' ').replace(')', ' ').replace('[', ' ').split() for k in rest.atoms()):
        return None
    return c, rest


def check_ranges(prog, rep):
    rep.rule('whole-axis', 'a loop whose variable is a position along an axis visits every position of that axis')
    for func, C, qual in all_funcs(prog):
        if '.demo' in func.module.name:
            continue
        fn = func.node
        S = Sizes(fn)
        loops = [n for n in walk_no_nested(fn) if isinstance(n, (ast.For, ast.comprehension))]
        ivars = {}
        for n in loops:
            r = loop_range(S, n)
            if r is not None:
                ivars[n] = r
        for n in walk_no_nested(fn):
            if isinstance(n, ast.While):
                r = while_range(S, fn, n)
                if r is not None:
                    ivars[n] = r
        names = {r[0] for r in ivars.values()}
        indexed = set()
        for n, (v, lo, hi) in ivars.items():
            body = n.body if isinstance(n, (ast.For, ast.While)) else [n._parent]
            shifts, bases, other, put, got = set(), set(), set(), {}, {}
            for b in body:
                for k in ast.walk(b):
                    if isinstance(k, ast.Subscript):
                        for ax, e in enumerate(index_elts(k)):
                            if isinstance(e, ast.Slice) and blockwise(S, e, v):
                                shifts.add(0)
                                bases.add((ast.unparse(k.value), ax))
                                continue
                            if isinstance(e, ast.Slice):
                                if any(isinstance(x, ast.Name) and x.id == v for p in (e.lower, e.upper) if p is not None for x in ast.walk(p)) and not all(
                                        gathered(p, v) for p in (e.lower, e.upper) if p is not None and any(isinstance(x, ast.Name) and x.id == v for x in ast.walk(p))):
                                    other.add(ast.unparse(k.value))
                                continue
                            c = coef(S, e, v)
                            if c is None and gathered(e, v):
                                continue
                            if c is None:
                                other.add(ast.unparse(k.value))
                            elif c[0] == 1 and c[1].is_const():
                                shifts.add(c[1].const)
                                bases.add((ast.unparse(k.value), ax))
                                (put if isinstance(k.ctx, ast.Store) else got).setdefault((ast.unparse(k.value), ax), set()).add(c[1].const)
                            elif c[0] != 0:
                                other.add(ast.unparse(k.value))
            if shifts or other:
                indexed.add(n)
            if not isinstance(n, ast.While):
                wrong_axis(S, fn, n, v, hi, rep, qual, func)
            if other:
                put = {b: x for b, x in put.items() if b[0] not in other}
                bases, shifts, got = set(put), set().union(*put.values()), {}
            if not shifts:
                continue
            if isinstance(n, (ast.For, ast.While)) and any(isinstance(x, (ast.Break, ast.Return)) for b in n.body for x in ast.walk(b)):
                continue
            if set(lo.atoms()) & names or set(hi.atoms()) & names or any(a in k for a in names for k in list(lo.atoms()) + list(hi.atoms()) if a == k):
                continue
            at = hi.atoms()
            if len(at) != 1 or list(at.values()) != [1] or not sizelike(next(iter(at))):
                continue
            rep.count('position_loops')
            over = ast.unparse(n.iter if not isinstance(n, ast.While) else n.test)
            where = f'{func.module.rel}:{getattr(n, "lineno", None) or n.iter.lineno} {qual}'
            if lo.is_const() and lo.const + min(shifts) > 0 and not handled(fn, n, set(put) or bases, range(0, lo.const + min(shifts))):
                rep.viol('whole-axis', f'{qual}:{v}:first', f'the loop over {over} leaves out the first positions of {", ".join(sorted({b for b, _ in bases}))}', where)
            for b, sh in sorted(put.items()):
                if lo.is_const() and lo.const + min(sh) > 0 and min(sh) != min(shifts) and not handled(fn, n, {b}, range(0, lo.const + min(sh)), True) and not seeded(n, b, lo.const, sh, got):
                    rep.viol('whole-axis', f'{qual}:{v}:{b[0]}', f'the loop over {over} leaves out the first positions of {b[0]}', where)
                if hi.const + max(sh) < 0 and max(sh) != max(shifts) and not handled(fn, n, {b}, range(hi.const + max(sh), 0), True) and descending(n) is False and not got.get(b):
                    rep.viol('whole-axis', f'{qual}:{v}:{b[0]}', f'the loop over {over} leaves out the last positions of {b[0]}', where)
            if hi.const + max(shifts) < 0 and not handled(fn, n, set(put) or bases, range(hi.const + max(shifts), 0)):
                rep.viol('whole-axis', f'{qual}:{v}:last', f'the loop over {over} leaves out the last positions of {", ".join(sorted({b for b, _ in bases}))}', where)
            if lo.is_const() and lo.const + min(shifts) < 0:
                rep.viol('whole-axis', f'{qual}:{v}:before', f'the loop over {over} starts with a position before the first of {", ".join(sorted({b for b, _ in bases}))} (which is the last one)', where)
            if hi.const + max(shifts) > 0 and lo.is_const():
                rep.viol('whole-axis', f'{qual}:{v}:beyond', f'the loop over {over} goes beyond the end of {", ".join(sorted({b for b, _ in bases}))}', where)
        # half of a square without its diagonal
        for n, (v, lo, hi) in ivars.items():
            outer = [(m, r) for m, r in ivars.items() if m is not n and isinstance(m, ast.For) and any(x is n for b in m.body for x in ast.walk(b))]
            if not isinstance(n, ast.For):
                continue
            for m, (w, lo2, hi2) in outer:
                below = lo.is_const() and lo.const == 0 and hi == Lin({w: 1})
                above = lo == Lin({w: 1, '': 1}) and hi == hi2
                if not (below or above):
                    continue
                for k in ast.walk(fn):
                    if isinstance(k, ast.Subscript) and isinstance(k.ctx, ast.Store) and any(x is k for x in ast.walk(n)):
                        elts = [ast.unparse(e) for e in index_elts(k)]
                        if v in elts and w in elts:
                            diag = [x for x in ast.walk(fn) if isinstance(x, ast.Subscript) and isinstance(x.ctx, ast.Store) and ast.unparse(x.value) == ast.unparse(k.value) and not any(x is y for y in ast.walk(n))]
                            if not diag:
                                rep.viol('whole-axis', f'{qual}:{v}:diagonal', f'the loop over {ast.unparse(n.iter)} leaves out the diagonal of {ast.unparse(k.value)}', f'{func.module.rel}:{n.lineno} {qual}')
        # elements left out by a slice
        for n in loops:
            it = n.iter
            enum = isinstance(it, ast.Call) and dotted(it.func) in ('enumerate', 'reversed', 'list', 'sorted') and it.args
            if enum and n in indexed and not (isinstance(it.args[0], ast.Subscript) and isinstance(it.args[0].value, ast.Call)):
                continue
            if enum:
                it = it.args[0]
            if isinstance(it, ast.Subscript) and isinstance(it.slice, ast.Slice) and (acts(n) or rejects(n) and not first_elsewhere(C, it.value)):
                rep.count('sliced_loops')
                lo, hi = it.slice.lower, it.slice.upper
                base = ast.unparse(it.value)
                first = isinstance(lo, ast.Constant) and isinstance(lo.value, int) and lo.value > 0
                if lo is None and isinstance(hi, ast.Constant) and isinstance(hi.value, int) and hi.value > 0 and isinstance(n, ast.comprehension) and base != 'self.shape' and not base.endswith('.shape'):
                    rep.viol('whole-axis', f'{qual}:{base}:few', f'the loop over {ast.unparse(n.iter)} treats the first {hi.value} elements only', f'{func.module.rel}:{n.iter.lineno} {qual}')
                last = isinstance(hi, ast.UnaryOp) and isinstance(hi.op, ast.USub) and isinstance(hi.operand, ast.Constant)
                if first and not handled(fn, n, {(base, 0)}, range(lo.value)):
                    rep.viol('whole-axis', f'{qual}:{base}:first', f'the loop over {ast.unparse(n.iter)} leaves out the first elements', f'{func.module.rel}:{n.iter.lineno} {qual}')
                if last and not handled(fn, n, {(base, 0)}, range(-hi.operand.value, 0)):
                    rep.viol('whole-axis', f'{qual}:{base}:last', f'the loop over {ast.unparse(n.iter)} leaves out the last elements', f'{func.module.rel}:{n.iter.lineno} {qual}')
    rep.floor('position_loops', 25)


def gathered(e, v):
    """does the variable only select an array of positions (A[B[:, v]])"""
    subs = [k for k in ast.walk(e) if isinstance(k, ast.Subscript)]
    return bool(subs) and all(any(x is n for k in subs for x in ast.walk(k.slice)) for n in ast.walk(e) if isinstance(n, ast.Name) and n.id == v)


def wrong_axis(S, fn, n, v, hi, rep, qual, func):
    """range(X.shape[k]) and X indexed with the loop variable, but along another axis (or not at all)"""
    at = hi.atoms()
    if len(at) != 1 or list(at.values()) != [1] or isinstance(n.iter, ast.Call) and dotted(n.iter.func) == 'enumerate':
        return
    m = re.match(r'^(.*)\.shape\[(\d+)\]$', next(iter(at)))
    if not m:
        return
    X, k = m.group(1), int(m.group(2))
    axes, fixed, whole = set(), False, False
    body = n.body if isinstance(n, ast.For) else [n._parent]
    for b in body:
        for e in ast.walk(b):
            if isinstance(e, ast.Attribute) and e.attr == 'shape':
                continue
            if isinstance(e, (ast.Name, ast.Attribute)) and isinstance(e.ctx, ast.Load) and ast.unparse(e) == X:
                q = e._parent
                if isinstance(q, ast.Attribute) and q.attr in ('shape', 'size', 'ndim', 'dtype'):
                    continue
                if not (isinstance(q, ast.Subscript) and q.value is e):
                    whole = True
                    continue
                elts = index_elts(q)
                used = {ax for ax, x in enumerate(elts) if any(isinstance(y, ast.Name) and (y.id == v or derived(S, y.id, v)) for y in ast.walk(x))}
                if any(isinstance(x, ast.Constant) and (x.value is Ellipsis or x.value is None) for x in elts) or any(isinstance(x, ast.Starred) for x in elts):
                    whole = True
                axes |= used
                if not used and len(elts) > k and isinstance(elts[k], ast.Constant):
                    fixed = True
                elif not used:
                    whole = True
    where = f'{func.module.rel}:{n.iter.lineno} {qual}'
    over = ast.unparse(n.iter)
    if axes and k not in axes and not whole and X not in S.params and not isinstance(S.defs.get(X), ast.Subscript):
        dims = alloc_dims(S, fn, X)
        if dims and all(a < len(dims) for a in axes | {k}) and any(dims[a] is not None and dims[k] is not None and dims[a] == dims[k] for a in axes):
            return
        rep.count('axis_loops')
        rep.viol('whole-axis', f'{qual}:{v}:axis', f'the loop over {over} uses its variable along another axis of {X}', where)
    elif axes:
        rep.count('axis_loops')
    elif fixed and not whole:
        rep.viol('whole-axis', f'{qual}:{v}:fixed', f'the loop over {over} takes the same position of {X} every time', where)


def derived(S, name, v, depth=0):
    d = S.defs.get(name)
    return d is not None and depth < 4 and any(isinstance(y, ast.Name) and (y.id == v or derived(S, y.id, v, depth + 1)) for y in ast.walk(d))


def alloc_dims(S, fn, X):
    for n in ast.walk(fn):
        if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == X for t in n.targets) and isinstance(n.value, ast.Call):
            sh = n.value.args[0] if n.value.args else None
            if isinstance(sh, ast.Name):
                sh = S.defs.get(sh.id)
            if isinstance(sh, ast.Tuple):
                return [S.lin(e) for e in sh.elts]
    return None


def descending(loop):
    it = getattr(loop, 'iter', None)
    if not isinstance(it, ast.Call):
        return False
    return dotted(it.func) == 'reversed' or len(it.args) == 3 and isinstance(it.args[2], ast.UnaryOp)


def seeded(loop, b, lo, sh, got):
    """a recurrence: the positions that are not stored are the ones it starts from"""
    return not descending(loop) and b in got and min(got[b]) < min(sh) and lo + min(sh) <= lo + max(got[b]) + 1


def rejects(loop):
    return isinstance(loop, ast.For) and any(isinstance(x, ast.Raise) for b in loop.body for x in ast.walk(b))


def first_elsewhere(C, base):
    """does the class refer to the first element: the others are compared with it"""
    if C is None:
        return True
    t = ast.unparse(base)
    for K in C.mro():
        for n in ast.walk(K.node):
            if isinstance(n, ast.Subscript) and ast.unparse(n.value) == t and isinstance(n.slice, ast.Constant) and n.slice.value == 0:
                return True
            if isinstance(n, ast.Call) and dotted(n.func) in ('Delegate', 'DelegatesTo'):
                pass
    return False


def acts(loop):
    """does the loop do more than compare (neighbouring) elements"""
    if isinstance(loop, ast.comprehension):
        return True
    return any(isinstance(x, (ast.Yield, ast.AugAssign, ast.Return)) or isinstance(x, ast.Assign) and not all(isinstance(t, ast.Name) for t in x.targets) or
               isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ('append', 'add', 'extend', 'update', 'write')
               for b in loop.body for x in ast.walk(b))


def handled(fn, loop, bases, positions, stores=False):
    """are the positions left out dealt with elsewhere in the function"""
    inside = set(map(id, ast.walk(loop))) if not isinstance(loop, ast.comprehension) else set(map(id, ast.walk(loop._parent)))
    want = set(positions)
    got = set()
    for k in ast.walk(fn):
        if id(k) in inside or not isinstance(k, ast.Subscript) or stores and not isinstance(k.ctx, ast.Store):
            continue
        b = ast.unparse(k.value)
        for ax, e in enumerate(index_elts(k)):
            if (b, ax) not in bases:
                continue
            if isinstance(e, ast.Constant) and isinstance(e.value, int):
                got.add(e.value)
            elif isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.USub) and isinstance(e.operand, ast.Constant):
                got.add(-e.operand.value)
            elif isinstance(e, ast.Slice) and (e.lower is None and e.upper is None or isinstance(k.ctx, ast.Store)) or isinstance(e, ast.Constant) and e.value is Ellipsis:
                return True
    return want <= got


# ---------------------------------------------------------------- memory that was never written
ALLOC = {'empty', 'empty_like', 'ndarray'}
PURE = {'sum', 'abs', 'sqrt', 'dot', 'append', 'array', 'asarray', 'rfft', 'irfft', 'fft', 'ifft', 'concatenate', 'stack', 'vstack', 'hstack', 'mean', 'max', 'min', 'argsort',
        'norm', 'tile', 'conj', 'real', 'imag', 'exp', 'cumsum', 'inv', 'eigh', 'trace', 'diag', 'transpose'}


def reads_first(func, i):
    """does the function use what is in its array parameter before it has stored it there"""
    if func is None or i >= len(func.params):
        return False
    p, stored = func.params[i], set()
    for s in func.node.body:
        for st in (x for x in ast.walk(s) if isinstance(x, (ast.Assign, ast.AugAssign, ast.Expr))):
            loads, puts = [], []
            for n in ast.walk(st):
                if isinstance(n, ast.Subscript) and isinstance(n.value, ast.Name) and n.value.id == p:
                    (puts if isinstance(n.ctx, ast.Store) else loads).append(ast.unparse(n))
            if isinstance(st, ast.AugAssign) and puts:
                loads += puts
            if any(x not in stored for x in loads):
                return True
            if any(':' in x for x in puts):
                return False
            stored |= set(puts)
    return False


def helper(prog, module, name):
    r = prog.resolve_global(module, name)
    return r[1] if r and r[0] == 'func' else None


def check_written(prog, rep):
    rep.rule('written', 'an array that is created without initial values is written at every position before it is used')
    for func, C, qual in all_funcs(prog):
        fn = func.node
        S = None
        for n in walk_no_nested(fn):
            if not (isinstance(n, ast.Assign) and isinstance(n.value, ast.Call) and (dotted(n.value.func) or '').split('.')[-1] in ALLOC
                    and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name)):
                continue
            kind = (dotted(n.value.func) or '').split('.')[-1]
            A = n.targets[0].id
            S = S or Sizes(fn)
            rep.count('uninitialised_arrays')
            shape = n.value.args[0] if n.value.args else next((k.value for k in n.value.keywords if k.arg == 'shape'), None)
            dims = None
            if kind != 'empty_like' and shape is not None:
                dims = [S.lin(e) for e in shape.elts] if isinstance(shape, ast.Tuple) and not any(isinstance(e, ast.Starred) for e in shape.elts) else None
                if isinstance(shape, ast.Constant) or isinstance(shape, (ast.Name, ast.Attribute)) and not isinstance(shape, ast.Tuple):
                    dims = [S.lin(shape)] if isinstance(shape, ast.Constant) else None
            verdicts = []
            for k in walk_no_nested(fn):
                if isinstance(k, ast.Subscript) and isinstance(k.ctx, ast.Store) and isinstance(k.value, ast.Name) and k.value.id == A:
                    if isinstance(getattr(k, '_parent', None), ast.AugAssign):
                        continue
                    verdicts.append(coverage(S, fn, k, dims, n))
                elif isinstance(k, ast.Call) and k is not n.value:
                    for a in list(k.args) + [x.value for x in k.keywords]:
                        if any(isinstance(x, ast.Name) and x.id == A for x in ast.walk(a)) and not (isinstance(k.func, ast.Name) and k.func.id in ('len', 'range', 'isinstance')):
                            if (dotted(k.func) or '').split('.')[-1] in PURE and not any(x.arg == 'out' for x in k.keywords):
                                continue
                            if isinstance(k.func, ast.Name) and isinstance(a, ast.Name) and a in k.args and reads_first(helper(prog, func.module, k.func.id), k.args.index(a)):
                                verdicts.append(('part', f'{k.func.id} reads it before it has been written'))
                                continue
                            verdicts.append('call')
                elif isinstance(k, ast.Assign) and isinstance(k.value, ast.Name) and k.value.id == A:
                    verdicts.append('alias')
            if verdicts and all(isinstance(v, tuple) and len(v) == 3 for v in verdicts) and used_only_if(fn, A, {v[2] for v in verdicts}):
                continue
            if not verdicts or all(isinstance(v, tuple) for v in verdicts):
                if dims is not None and any(d is not None and d.is_const() and d.const == 0 for d in dims):
                    continue
                why = '; '.join(sorted({v[1] for v in verdicts})) or 'nothing is ever stored in it'
                rep.viol('written', f'{qual}:{A}', f'{A} is created without initial values and not written everywhere: {why}', f'{func.module.rel}:{n.lineno} {qual}')
    rep.floor('uninitialised_arrays', 15)


def used_only_if(fn, A, tests):
    for k in walk_no_nested(fn):
        if isinstance(k, ast.Name) and k.id == A and isinstance(k.ctx, ast.Load):
            p, c, ok = getattr(k, '_parent', None), k, False
            while p is not None and p is not fn:
                if isinstance(p, (ast.If, ast.IfExp)) and ast.unparse(p.test) in tests and (c in p.body if isinstance(p.body, list) else c is p.body):
                    ok = True
                p, c = getattr(p, '_parent', None), p
            if not ok:
                return False
    return True


def coverage(S, fn, sub, dims, alloc):
    """'full', 'unknown', or ('part', why)"""
    stmt = sub
    while not isinstance(stmt, ast.stmt):
        stmt = stmt._parent
    # conditions between the store and the creation of the array
    loops = []
    cond = None
    p, c = getattr(stmt, '_parent', None), stmt
    scope = set()
    q = alloc
    while q is not None:
        scope.add(id(q))
        q = getattr(q, '_parent', None)
    while p is not None and id(p) not in scope:
        if isinstance(p, ast.For):
            loops.append(p)
            if any(isinstance(x, (ast.Continue, ast.Break)) for b in p.body for x in ast.walk(b)):
                return 'unknown'
        elif isinstance(p, ast.While):
            return 'unknown'
        elif isinstance(p, ast.If):
            branch = p.orelse if c in p.body else p.body
            A = sub.value.id
            if not any(isinstance(x, ast.Subscript) and isinstance(x.ctx, ast.Store) and isinstance(x.value, ast.Name) and x.value.id == A
                       or isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and x.id == A
                       or isinstance(x, (ast.Raise, ast.Return)) for b in branch for x in ast.walk(b)):
                cond = p
        elif isinstance(p, (ast.Try,)):
            return 'unknown'
        p, c = getattr(p, '_parent', None), p
    if cond is not None:
        return ('part', f'it is only stored if {ast.unparse(cond.test)}', ast.unparse(cond.test))
    elts = index_elts(sub)
    if any(isinstance(e, ast.Constant) and e.value is Ellipsis for e in elts):
        elts = [e for e in elts if not (isinstance(e, ast.Constant) and e.value is Ellipsis)]
        if not elts:
            return 'full'
        return 'unknown'
    if dims is None or len(elts) > len(dims):
        return 'unknown'
    ranges = {}
    for lp in loops:
        r = loop_range(S, lp)
        if r is not None:
            ranges[r[0]] = r
    for e, d in zip(elts, dims):
        if isinstance(e, ast.Slice):
            if e.lower is None and e.upper is None and e.step is None:
                continue
            lo = S.lin(e.lower) if e.lower is not None else Lin()
            hi = S.lin(e.upper) if e.upper is not None else d
            if lo is None or hi is None or d is None or e.step is not None:
                return 'unknown'
            gap = lo + (d - hi)
            if gap.is_const() and gap.const == 0 and lo.is_const():
                continue
            return 'unknown'
        if isinstance(e, ast.Name) and e.id in ranges:
            _, lo, hi = ranges[e.id]
            if d is None:
                return 'unknown'
            n = d - (hi - lo)
            if n.is_const() and lo.is_const():
                if n.const == 0 and lo.const == 0:
                    continue
                if n.const > 0:
                    return ('part', f'the loop over {e.id} leaves out positions')
            return 'unknown'
        if isinstance(e, ast.Constant) and d is not None and d.is_const() and d.const == 1:
            continue
        return 'unknown'
    return 'full'


def check(prog, rep):
    check_last(prog, rep)
    check_ranges(prog, rep)
    check_written(prog, rep)
    rep.sample({'rule': 'whole-axis', 'loops': rep.counts.get('position_loops', 0)})
    rep.floor('element_loops', 100)
