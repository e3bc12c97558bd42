"""Generators that make their output row by row (parts of P07, P06 and P33)."""

import ast
from fractions import Fraction

from .model import dotted, walk_no_nested
from .p24 import all_funcs
from .p33 import ALLOC, Sizes, helper, index_elts, sizelike

LOOPS = (ast.For, ast.While)


def names(e):
    return {x.id for x in ast.walk(e) if isinstance(x, ast.Name)}


def parents(n, top):
    p = getattr(n, '_parent', None)
    while p is not None and p is not top:
        yield p
        p = getattr(p, '_parent', None)


def inside(n, loop):
    return any(p is loop for p in parents(n, None))


def last(d):
    return (d or '').split('.')[-1]


def signal_names(fn):
    """local arrays that hold samples of a signal"""
    out = set()

    def is_signal(v):
        return any(isinstance(k, ast.Call) and isinstance(k.func, ast.Attribute) and k.func.attr in ('usignal', 'signal') for k in ast.walk(v))

    for n in walk_no_nested(fn):
        if isinstance(n, ast.Assign) and is_signal(n.value):
            for t in n.targets:
                b = t.value if isinstance(t, ast.Subscript) else t
                if isinstance(b, ast.Name) and not any(isinstance(k, ast.Call) and last(dotted(k.func)) in ('len', 'empty', 'zeros') for k in ast.walk(n.value)):
                    out.add(b.id)
    return out


def plain_stores(loop):
    """names bound in the body of the loop other than by an augmented assignment"""
    out = set()
    for b in loop.body:
        for n in ast.walk(b):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and not (isinstance(n._parent, ast.AugAssign) and n._parent.target is n):
                if self_step(n._parent, n.id) is None:
                    out.add(n.id)
    return out


def self_step(s, name):
    """the amount added by  x = x + amount"""
    if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and s.targets[0].id == name and isinstance(s.value, ast.BinOp) and isinstance(s.value.op, ast.Add):
        for a, b in ((s.value.left, s.value.right), (s.value.right, s.value.left)):
            if isinstance(a, ast.Name) and a.id == name and name not in names(b):
                return b
    return None


def advancing(loop):
    """(names whose value moves on from pass to pass, roots among them that are stepped)"""
    inner_targets = {x for b in loop.body for n in ast.walk(b) if isinstance(n, (ast.For, ast.comprehension)) for x in names(n.target)}
    plain = plain_stores(loop)
    roots = {}
    for b in loop.body:
        for n in ast.walk(b):
            if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name) and n.target.id not in plain:
                roots.setdefault(n.target.id, []).append((n, n.value if isinstance(n.op, ast.Add) else None))
            elif isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and n.targets[0].id not in plain:
                st = self_step(n, n.targets[0].id)
                if st is not None:
                    roots.setdefault(n.targets[0].id, []).append((n, st))
    adv = set(roots)
    if isinstance(loop, ast.For):
        adv |= names(loop.target)
    for b in loop.body:
        for n in ast.walk(b):
            if isinstance(n, ast.Assign) and any(isinstance(k, ast.Call) and (dotted(k.func) == 'next' or isinstance(k.func, ast.Attribute) and k.func.attr == '__next__') for k in ast.walk(n.value)):
                adv |= {x for t in n.targets for x in names(t)}
            # the state of an object may move on with every call of one of its methods
            if isinstance(n, ast.Assign) and not names(n.value) - {'self'} and any(isinstance(k, ast.Call) for k in ast.walk(n.value)):
                adv |= {x for t in n.targets for x in names(t)}
    for _ in range(8):
        more = set()
        for b in loop.body:
            for n in ast.walk(b):
                if isinstance(n, (ast.Assign, ast.AugAssign)) and n.value is not None and names(n.value) & adv:
                    for t in n.targets if isinstance(n, ast.Assign) else [n.target]:
                        base = t
                        while isinstance(base, (ast.Subscript, ast.Attribute)):
                            base = base.value
                        if isinstance(base, ast.Name):
                            more.add(base.id)
                        elif isinstance(base, (ast.Tuple, ast.List)):
                            more |= names(base)
                elif isinstance(n, ast.For) and names(n.iter) & adv:
                    more |= names(n.target)
        if more <= adv:
            break
        adv |= more
    return adv - (inner_targets - adv), roots


def row_stores(loop):
    """(array, counter, node) of stores X[counter] in the loop"""
    out = []
    for b in loop.body:
        for n in ast.walk(b):
            if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name):
                e = index_elts(n)[0]
                if isinstance(e, ast.Name):
                    out.append((n.value.id, e.id, n))
    return out


def check_advance(prog, rep):
    rep.rule('advance', 'the position at which a signal is read moves on by the same amount with every row, also across the end of a block')
    kernels = {}
    for f, C, q in all_funcs(prog):
        if '.demo' in f.module.name:
            continue
        fn = f.node
        sig = signal_names(fn)
        if not sig or not any(isinstance(n, ast.Yield) for n in walk_no_nested(fn)):
            continue
        check_fn(f, q, fn, sig, rep, kernels, prog)
    for (g, psig), (q, where) in sorted(kernels.items(), key=lambda x: x[0][0].name):
        check_fn(g, g.name, g.node, {psig}, rep, None, prog)
    rep.floor('signal_reads', 6)


def check_fn(f, q, fn, sig, rep, kernels, prog):
    loops = [n for n in walk_no_nested(fn) if isinstance(n, LOOPS)]
    for loop in loops:
        if kernels is not None and not any(isinstance(x, ast.Yield) for b in loop.body for x in ast.walk(b)):
            continue
        rows = row_stores(loop)
        adv, roots = advancing(loop)
        where = f'{f.module.rel}:{loop.lineno} {q}'
        counters = {c for _, c, _ in rows}
        if kernels is None:
            # in a kernel: the loop whose variable is the row
            if not (isinstance(loop, ast.For) and isinstance(loop.target, ast.Name) and any(c == loop.target.id for _, c, _ in rows)):
                continue
        for n in (x for b in loop.body for x in ast.walk(b)):
            if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Load) and isinstance(n.value, ast.Name) and n.value.id in sig:
                rep.count('signal_reads')
                dep = closure(loop, names(n.slice))
                if not dep & adv:
                    rep.viol('advance', f'{q}:{n.value.id}:{ast.unparse(n.slice)[:40]}', f'{n.value.id}[{ast.unparse(n.slice)[:60]}] is read at the same position for every row', where)
                    continue
                for r in sorted((dep & set(roots)) - counters):
                    steps = roots[r]
                    if len(steps) > 1:
                        rep.viol('advance', f'{q}:{r}:twice', f'the position {r} of the signal is changed at several places while rows are made', f'{f.module.rel}:{steps[1][0].lineno} {q}')
                    s, amount = steps[0]
                    if amount is None:
                        if not (isinstance(s, ast.AugAssign) and isinstance(s.op, ast.Sub)) or dep_changed(loop, s.value):
                            rep.viol('advance', f'{q}:{r}:step', f'the position {r} of the signal does not move on by the same amount with every row', f'{f.module.rel}:{s.lineno} {q}')
                    elif dep_changed(loop, amount):
                        rep.viol('advance', f'{q}:{r}:step', f'the position {r} of the signal moves on by {ast.unparse(amount)[:40]}, which is not the same for every row', f'{f.module.rel}:{s.lineno} {q}')
                    cond = [p for p in parents(s, loop) if isinstance(p, ast.If)]
                    if cond and not any(p is c for c in cond for p in parents(n, loop)):
                        rep.viol('advance', f'{q}:{r}:conditional', f'the position {r} of the signal moves on only if {ast.unparse(cond[0].test)[:40]}', f'{f.module.rel}:{s.lineno} {q}')
            elif kernels is not None and isinstance(n, ast.Call) and isinstance(n.func, ast.Name):
                g = helper(prog, f.module, n.func.id)
                if g is None:
                    continue
                hit = [i for i, a in enumerate(n.args) if isinstance(a, ast.Name) and a.id in sig and i < len(g.params)]
                for i in hit:
                    ps = g.params[i]
                    kernels[(g, ps)] = (q, where)
                    for j, a in enumerate(n.args):
                        if j == i or j >= len(g.params) or not isinstance(a, ast.Name):
                            continue
                        pj = g.params[j]
                        uses = [x for x in walk_no_nested(g.node) if isinstance(x, ast.Subscript) and isinstance(x.value, ast.Name) and x.value.id == ps and pj in names(x.slice)]
                        if not uses:
                            continue
                        rep.count('signal_reads')
                        mut = moves(g, pj)
                        if mut is None:
                            if a.id not in adv:
                                rep.viol('advance', f'{q}:{a.id}', f'{a.id}, the position in the signal, is the same for every block: {g.name} does not change the array it is given', where)
                        else:
                            cond = mut


def moves(g, p):
    """the statement that changes the array the parameter refers to, None if the parameter is rebound or only read"""
    rebound = [x for x in walk_no_nested(g.node) if isinstance(x, ast.Assign) and any(isinstance(t, ast.Name) and t.id == p for t in x.targets)]
    if rebound:
        return None
    for x in walk_no_nested(g.node):
        if isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name) and x.target.id == p:
            return x
        if isinstance(x, (ast.Assign, ast.AugAssign)):
            for t in x.targets if isinstance(x, ast.Assign) else [x.target]:
                if isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name) and t.value.id == p:
                    return x
    return None


def dep_changed(loop, e):
    st = set()
    for b in loop.body:
        for n in ast.walk(b):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                st.add(n.id)
    return bool(names(e) & st)


def closure(loop, ns):
    ns = set(ns)
    for _ in range(8):
        more = set()
        for b in loop.body:
            for n in ast.walk(b):
                if isinstance(n, (ast.Assign, ast.AugAssign)):
                    for t in n.targets if isinstance(n, ast.Assign) else [n.target]:
                        base = t
                        while isinstance(base, ast.Subscript):
                            base = base.value
                        got = names(base) if isinstance(base, (ast.Name, ast.Tuple, ast.List)) else set()
                        if got & ns:
                            more |= names(n.value)
                elif isinstance(n, ast.For) and names(n.target) & ns:
                    more |= names(n.iter)
        if more <= ns:
            break
        ns |= more
    return ns


def check_fresh_rows(prog, rep):
    rep.rule('fresh-rows', 'rows that are summed up in a buffer start from zero again after the buffer was handed out')
    for f, C, q in all_funcs(prog):
        fn = f.node
        for loop in walk_no_nested(fn):
            if not isinstance(loop, LOOPS) or not any(isinstance(x, ast.Yield) for b in loop.body for x in ast.walk(b)):
                continue
            for b in loop.body:
                for n in ast.walk(b):
                    if not (isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Subscript) and isinstance(n.target.value, ast.Name)):
                        continue
                    X, e = n.target.value.id, index_elts(n.target)[0]
                    if not isinstance(e, ast.Name):
                        continue
                    alloc = [a for a in walk_no_nested(fn) if isinstance(a, ast.Assign) and any(isinstance(t, ast.Name) and t.id == X for t in a.targets) and isinstance(a.value, ast.Call)
                             and last(dotted(a.value.func)) in ('zeros', 'empty', 'ones', 'full', 'zeros_like', 'empty_like')]
                    if not alloc:
                        continue
                    ys = [y for c in loop.body for y in ast.walk(c) if isinstance(y, ast.Yield) and y.value is not None and X in names(y.value)]
                    if not ys:
                        continue
                    rep.count('summed_rows')
                    anew = False
                    for c in loop.body:
                        for s in ast.walk(c):
                            if isinstance(s, ast.Assign):
                                for t in s.targets:
                                    if isinstance(t, ast.Name) and t.id == X or isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name) and t.value.id == X:
                                        anew = True
                            elif isinstance(s, ast.Call) and isinstance(s.func, ast.Attribute) and s.func.attr == 'fill' and isinstance(s.func.value, ast.Name) and s.func.value.id == X:
                                anew = True
                            elif isinstance(s, ast.AugAssign) and isinstance(s.op, ast.Mult) and isinstance(s.value, ast.Constant) and s.value.value == 0:
                                anew = True
                    if not anew:
                        rep.viol('fresh-rows', f'{q}:{X}', f'rows of {X} are summed up on top of those of the block that was handed out before', f'{f.module.rel}:{n.lineno} {q}')


# ---------------------------------------------------------------- counters that index what is stored
def check_counters(prog, rep):
    rep.rule('counter', 'a counter that says where the next result is stored moves on with every result')
    rep.rule('fill-count', 'nested loops that fill an array position by position fill it completely')
    for f, C, q in all_funcs(prog):
        if '.demo' in f.module.name:
            continue
        fn = f.node
        for loop in walk_no_nested(fn):
            if not isinstance(loop, LOOPS):
                continue
            steps = {}
            for b in loop.body:
                for n in ast.walk(b):
                    if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name) and isinstance(n.op, ast.Add) and isinstance(n.value, ast.Constant) and n.value.value == 1:
                        steps.setdefault(n.target.id, []).append(n)
            plain = plain_stores(loop)
            for c, ss in steps.items():
                if len(ss) != 1 or c in plain:
                    continue
                s = ss[0]
                if any(isinstance(p, LOOPS) for p in parents(s, loop)):
                    continue
                puts = [n for b in loop.body for n in ast.walk(b) if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store) and any(isinstance(e, ast.Name) and e.id == c for e in index_elts(n))]
                if not puts:
                    continue
                rep.count('counters')
                conds = [p for p in parents(s, loop) if isinstance(p, ast.If)]
                for p in conds:
                    # a store of the pass lies outside the condition
                    if not all(any(x is p for x in parents(n, loop)) for n in puts) and not (isinstance(loop, ast.While) and c in names(loop.test)):
                        rep.viol('counter', f'{q}:{c}', f'{c}, where the next result is stored, moves on only if {ast.unparse(p.test)[:40]}: otherwise the next result replaces this one',
                                 f'{f.module.rel}:{s.lineno} {q}')
        fill_counts(f, q, fn, rep)


class Poly:
    """polynomials over names"""

    def __init__(self, d=None):
        self.d = {k: v for k, v in (d or {}).items() if v}

    @staticmethod
    def var(x):
        return Poly({(x,): Fraction(1)})

    @staticmethod
    def const(c):
        return Poly({(): Fraction(c)})

    def __add__(self, o):
        r = dict(self.d)
        for k, v in o.d.items():
            r[k] = r.get(k, 0) + v
        return Poly(r)

    def __sub__(self, o):
        return self + o * Poly.const(-1)

    def __mul__(self, o):
        r = {}
        for a, x in self.d.items():
            for b, y in o.d.items():
                k = tuple(sorted(a + b))
                r[k] = r.get(k, 0) + x * y
        return Poly(r)

    def __eq__(self, o):
        return self.d == o.d

    def split(self, v):
        """coefficients by power of v"""
        out = {}
        for k, c in self.d.items():
            p = k.count(v)
            rest = tuple(x for x in k if x != v)
            out.setdefault(p, {})
            out[p][rest] = out[p].get(rest, 0) + c
        return {p: Poly(d) for p, d in out.items()}


def poly(S, e, depth=0):
    if isinstance(e, ast.Constant) and isinstance(e.value, int) and not isinstance(e.value, bool):
        return Poly.const(e.value)
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.USub):
        v = poly(S, e.operand, depth)
        return v and v * Poly.const(-1)
    if isinstance(e, ast.BinOp):
        a, b = poly(S, e.left, depth), poly(S, e.right, depth)
        if a is None or b is None:
            return None
        if isinstance(e.op, ast.Add):
            return a + b
        if isinstance(e.op, ast.Sub):
            return a - b
        if isinstance(e.op, ast.Mult):
            return a * b
        if isinstance(e.op, ast.Pow) and isinstance(e.right, ast.Constant) and e.right.value in (2, 3):
            r = a
            for _ in range(e.right.value - 1):
                r = r * a
            return r
        return None
    if isinstance(e, ast.Name):
        if e.id in S.defs and depth < 5:
            v = poly(S, S.defs[e.id], depth + 1)
            if v is not None:
                return v
        return Poly.var(e.id)
    if isinstance(e, ast.Attribute):
        return Poly.var(ast.unparse(e))
    if isinstance(e, ast.Call) and dotted(e.func) == 'int' and len(e.args) == 1:
        return poly(S, e.args[0], depth)
    return None


def sum_over(p, v, lo, hi):
    """sum of p for v from lo to hi - 1, p linear in v"""
    parts = p.split(v)
    if any(k > 1 for k in parts):
        return None
    n = hi - lo
    out = Poly()
    if 0 in parts:
        out = out + parts[0] * n
    if 1 in parts:
        # sum of v = n * (lo + hi - 1) / 2
        out = out + parts[1] * n * (lo + hi - Poly.const(1)) * Poly.const(Fraction(1, 2))
    return out


def range_of(S, loop):
    it = loop.iter
    if not (isinstance(it, ast.Call) and dotted(it.func) == 'range' and 1 <= len(it.args) <= 2 and isinstance(loop.target, ast.Name)):
        return None
    lo = poly(S, it.args[0]) if len(it.args) == 2 else Poly.const(0)
    hi = poly(S, it.args[-1])
    return (loop.target.id, lo, hi) if lo is not None and hi is not None else None


def fill_counts(f, q, fn, rep):
    S = Sizes(fn)
    for n in walk_no_nested(fn):
        if not (isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name) and isinstance(n.op, ast.Add) and isinstance(n.value, ast.Constant) and n.value.value == 1):
            continue
        c = n.target.id
        loops = [p for p in parents(n, fn) if isinstance(p, LOOPS)]
        if not loops or any(not isinstance(p, ast.For) for p in loops) or any(isinstance(p, (ast.If, ast.Try)) for p in parents(n, fn)):
            continue
        stores = [x for x in walk_no_nested(fn) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and x.id == c]
        init = [x for x in stores if isinstance(x._parent, ast.Assign) and isinstance(x._parent.value, ast.Constant) and x._parent.value.value == 0]
        if len(stores) != 2 or len(init) != 1 or any(isinstance(p, LOOPS) for p in parents(init[0], fn)):
            continue
        if any(isinstance(x, (ast.Break, ast.Continue, ast.Return)) for l in loops for b in l.body for x in ast.walk(b)):
            continue
        total = Poly.const(1)
        for l in loops:         # innermost first
            r = range_of(S, l)
            if r is None or total is None:
                total = None
                break
            total = sum_over(total, *r)
        if total is None:
            continue
        for put in walk_no_nested(fn):
            if not (isinstance(put, ast.Subscript) and isinstance(put.ctx, ast.Store) and isinstance(put.value, ast.Name) and put._parent is not None):
                continue
            inner = [p for p in parents(put, fn) if isinstance(p, LOOPS)]
            if [id(p) for p in inner] != [id(p) for p in loops]:
                continue
            for ax, e in enumerate(index_elts(put)):
                if isinstance(e, ast.Name) and e.id == c:
                    d = S.defs.get(put.value.id)
                    if not (isinstance(d, ast.Call) and last(dotted(d.func)) in ('zeros', 'empty', 'ones', 'full') and d.args):
                        continue
                    sh = d.args[0]
                    sh = S.defs.get(sh.id, sh) if isinstance(sh, ast.Name) else sh
                    dims = sh.elts if isinstance(sh, ast.Tuple) else [sh]
                    if ax >= len(dims):
                        continue
                    size = poly(S, dims[ax])
                    if size is None:
                        continue
                    rep.count('fill_counts')
                    if not size == total:
                        rep.viol('fill-count', f'{q}:{put.value.id}', f'the loops do not fill {put.value.id} position by position: it has {ast.unparse(dims[ax])} of them', f'{f.module.rel}:{put.lineno} {q}')


# ---------------------------------------------------------------- transforms along time
TRANSFORMS = {'fft': 2, 'ifft': 2, 'rfft': 2, 'irfft': 2, 'hfft': 2, 'ihfft': 2}


def check_axis(prog, rep):
    rep.rule('transform-axis', 'a transform over time works along the rows of a block, for every channel')
    for f, C, q in all_funcs(prog):
        if '.demo' in f.module.name:
            continue
        for n in walk_no_nested(f.node):
            if not (isinstance(n, ast.Call) and last(dotted(n.func)) in TRANSFORMS and n.args):
                continue
            if isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == 'self':
                continue
            ax = next((k.value for k in n.keywords if k.arg == 'axis'), n.args[2] if len(n.args) > 2 else None)
            if any(isinstance(k, ast.Attribute) and k.attr in ('T', 'transpose', 'swapaxes') for k in ast.walk(n)) or isinstance(n.args[0], ast.Subscript) and any(
                    isinstance(e, ast.Name) for e in index_elts(n.args[0])[1:]):
                continue
            rep.count('transforms')
            if ax is None:
                if C is not None and C.find_method('result') is not None or 'kernel' in ast.unparse(n.args[0]):
                    rep.viol('transform-axis', f'{q}:{ast.unparse(n)[:40]}', 'the transform works along the last axis, i.e. over the channels', f'{f.module.rel}:{n.lineno} {q}')
            elif isinstance(ax, ast.Constant) and ax.value not in (0, -2) or isinstance(ax, ast.UnaryOp) and ast.unparse(ax) == '-1':
                rep.viol('transform-axis', f'{q}:{ast.unparse(n)[:40]}', f'the transform works along axis {ast.unparse(ax)}, not along the rows', f'{f.module.rel}:{n.lineno} {q}')
    rep.floor('transforms', 5)


# ---------------------------------------------------------------- parallel lists with an offset
def check_offsets(prog, rep):
    rep.rule('offset', 'elements of two lists that belong together are used together, also where a loop starts behind the first')
    for f, C, q in all_funcs(prog):
        if '.demo' in f.module.name:
            continue
        fn = f.node
        lists = {}
        for n in walk_no_nested(fn):
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and isinstance(n.value, ast.ListComp) and len(n.value.generators) == 1:
                it = n.value.generators[0].iter
                if isinstance(it, ast.Subscript) and isinstance(it.slice, ast.Slice) and isinstance(it.slice.lower, ast.Constant) and isinstance(it.slice.lower.value, int):
                    lists[n.targets[0].id] = (ast.unparse(it.value), it.slice.lower.value)
        for loop in walk_no_nested(fn):
            if not (isinstance(loop, ast.For) and isinstance(loop.iter, ast.Call) and dotted(loop.iter.func) == 'enumerate' and isinstance(loop.target, ast.Tuple) and isinstance(loop.target.elts[0], ast.Name)):
                continue
            a = loop.iter.args[0]
            if isinstance(a, ast.Name) and a.id in lists:
                L, o = lists[a.id]
            elif isinstance(a, ast.Subscript) and isinstance(a.slice, ast.Slice) and isinstance(a.slice.lower, ast.Constant) and isinstance(a.slice.lower.value, int):
                L, o = ast.unparse(a.value), a.slice.lower.value
            else:
                continue
            start = loop.iter.args[1] if len(loop.iter.args) > 1 else next((k.value for k in loop.iter.keywords if k.arg == 'start'), ast.Constant(0))
            if not isinstance(start, ast.Constant):
                continue
            j = loop.target.elts[0].id
            # arrays used at the constant positions that the list leaves out
            const = {}
            for n in walk_no_nested(fn):
                if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Constant) and isinstance(n.slice.value, int) and not inside(n, loop):
                    const.setdefault(ast.unparse(n.value), set()).add(n.slice.value)
            if not set(range(o)) <= const.get(L, set()):
                continue
            S = Sizes(fn)
            for b in loop.body:
                for n in ast.walk(b):
                    if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Load) and set(range(o)) <= const.get(ast.unparse(n.value), set()) and ast.unparse(n.value) != L and not isinstance(n.slice, (ast.Slice, ast.Tuple)):
                        v = S.lin(n.slice)
                        if v is None or v.d.get(j) != 1 or len(v.atoms()) != 1:
                            continue
                        rep.count('offsets')
                        if v.const + start.value != o:
                            rep.viol('offset', f'{q}:{ast.unparse(n)}', f'{ast.unparse(n)} belongs to another element than the one of {L} it is used with', f'{f.module.rel}:{n.lineno} {q}')


# ---------------------------------------------------------------- arrays filled by a kernel
def check_kernels(prog, rep):
    rep.rule('kernel-writes', 'a function that fills an array it is given writes every position its loops visit')
    seen = set()
    for f, C, q in all_funcs(prog):
        fn = f.node
        S = Sizes(fn)
        alloc = {}
        for n in walk_no_nested(fn):
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and isinstance(n.value, ast.Call) and last(dotted(n.value.func)) in ALLOC:
                alloc[n.targets[0].id] = n
        if not alloc:
            continue
        for n in walk_no_nested(fn):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name):
                g = helper(prog, f.module, n.func.id)
                if g is None:
                    continue
                for i, a in enumerate(n.args):
                    if isinstance(a, ast.Name) and a.id in alloc and i < len(g.params) and (g, i) not in seen:
                        seen.add((g, i))
                        p = g.params[i]
                        if not stores_to(g.node, p):
                            continue
                        rep.count('kernel_arrays')
                        miss = partial(g.node.body, p)
                        if miss is not None:
                            rep.viol('kernel-writes', f'{g.name}:{p}', f'{p} is an array without initial values, but {g.name} writes it only if {ast.unparse(miss.test)[:50]}', f'{g.module.rel}:{miss.lineno} {g.name}')


def stores_to(node, p):
    return [x for x in ast.walk(node) if isinstance(x, ast.Subscript) and isinstance(x.ctx, ast.Store) and isinstance(x.value, ast.Name) and x.value.id == p]


def must(stmts, p):
    """is p written in every run of the statements (loops taken to run)"""
    for s in stmts:
        if isinstance(s, ast.If):
            if must(s.body, p) and must(s.orelse, p):
                return True
        elif isinstance(s, LOOPS + (ast.With,)):
            if must(s.body, p):
                return True
        elif stores_to(s, p):
            return True
        elif isinstance(s, (ast.Return, ast.Raise)):
            return isinstance(s, ast.Raise)
    return False


def partial(stmts, p):
    """the condition without which p is not written, None if it is written always"""
    if must(stmts, p):
        # also in the inner branches of conditions that end in loops
        for s in stmts:
            if isinstance(s, ast.If):
                for b in (s.body, s.orelse):
                    if any(stores_to(x, p) for x in b):
                        m = partial(b, p)
                        if m is not None:
                            return m
        return None
    for s in stmts:
        for x in ast.walk(s):
            if isinstance(x, ast.If) and stores_to(x, p) and not (must(x.body, p) and must(x.orelse, p)):
                return x
    return None
