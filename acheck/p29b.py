"""P29: which frequencies are calculated, positions in partial arrays, and what one frequency leaves behind for the next."""

import ast

from .model import dotted, walk_no_nested
from .p24 import all_funcs

FLAGS = {'_fr', 'gp', 'fr'}


def last(d):
    return (d or '').split('.')[-1]


def up(n):
    return getattr(n, '_parent', None)


def selects_done(n):
    """does the expression around an array of flags select the entries that are set (True), those that are not (False), or is it unclear (None)"""
    p, c = up(n), n
    while isinstance(p, (ast.Subscript,)) and p.value is c or isinstance(p, ast.Call) and last(dotted(p.func)) in ('array', 'asarray') or isinstance(p, ast.Attribute) and p.attr in ('astype', 'copy', 'flatten', 'ravel') \
            or isinstance(p, ast.Call) and isinstance(p.func, ast.Attribute) and p.func is c:
        p, c = up(p), p
    if isinstance(p, ast.Compare) and len(p.ops) == 1:
        o = p.comparators[0] if p.left is c else p.left
        if not isinstance(o, ast.Constant) or o.value not in (0, 1):
            return None
        op = type(p.ops[0])
        if p.left is not c:
            op = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE}.get(op, op)
        truth = {ast.Eq: lambda v: v == o.value, ast.NotEq: lambda v: v != o.value, ast.Lt: lambda v: v < o.value, ast.Gt: lambda v: v > o.value,
                 ast.LtE: lambda v: v <= o.value, ast.GtE: lambda v: v >= o.value}.get(op)
        if truth is None or truth(0) == truth(1):
            return None
        r, c, p = truth(1), p, up(p)
    elif isinstance(p, (ast.UnaryOp, ast.Call)) or isinstance(p, ast.comprehension) and c in p.ifs:
        r = True
    else:
        return None
    while True:
        if isinstance(p, ast.UnaryOp) and isinstance(p.op, (ast.Not, ast.Invert)):
            r = not r
        elif isinstance(p, ast.Call) and last(dotted(p.func)) == 'logical_not':
            r = not r
        else:
            break
        c, p = p, up(p)
    if isinstance(p, ast.Subscript) and p.slice is c:
        return r
    if isinstance(p, ast.Call) and last(dotted(p.func)) in ('nonzero', 'flatnonzero', 'where', 'argwhere', 'compress'):
        return r
    if isinstance(p, ast.comprehension) and c in p.ifs:
        return r
    return None


def check(prog, rep):
    check_last_index(prog, rep)
    rep.rule('missing-only', 'what is selected for calculation are the entries that are not marked as calculated, all of those that were asked for')
    rep.rule('mark-each', 'in a loop that stores results at an index, the same index is marked as calculated in the same loop')
    rep.rule('partial-position', 'an array that was made from a selection is used at the position in the selection, not at the number that was selected')
    rep.rule('band-limits', 'the range between two limits that were looked up in the frequencies is used as it was found')
    rep.rule('fresh-frequency', 'arrays that are changed while one frequency is calculated are set anew for the next one')
    for f, C, q in all_funcs(prog):
        if '.demo' in f.module.name:
            continue
        fn = f.node
        selection(f, q, fn, rep)
        marks(f, q, fn, rep)
        positions(f, q, fn, rep)
        limits(f, q, fn, rep)
        if f.name == '_calc' and len(f.params) > 1:
            fresh(f, q, fn, rep)
    rep.floor('selections', 2)
    rep.floor('band_limits', 3)
    rep.floor('fresh_arrays', 8)


def flag_name(n, fn):
    if isinstance(n, ast.Attribute):
        return n.attr == '_fr'
    return isinstance(n, ast.Name) and n.id in FLAGS and n.id in {a.arg for a in fn.args.args}


def selection(f, q, fn, rep):
    asked = []
    for n in walk_no_nested(fn):
        if isinstance(n, (ast.Attribute, ast.Name)) and isinstance(n.ctx, ast.Load) and flag_name(n, fn):
            r = selects_done(n)
            if r is None:
                continue
            rep.count('selections')
            asked.append(n)
            if r:
                rep.viol('missing-only', f'{q}:{ast.unparse(n)}', f'{q} selects the entries that are already marked in {ast.unparse(n)}, not those that are missing', f'{f.module.rel}:{n.lineno} {q}')
    # the frequencies handed over for calculation
    if f.name == '__getitem__':
        for n in walk_no_nested(fn):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == '_calc' and n.args:
                seen, todo, ok = set(), [n.args[0]], False
                while todo:
                    e = todo.pop()
                    for x in ast.walk(e):
                        if isinstance(x, ast.Attribute) and x.attr == '_fr':
                            ok = True
                        elif isinstance(x, ast.Name) and x.id not in seen:
                            seen.add(x.id)
                            todo += [a.value for a in walk_no_nested(fn) if isinstance(a, ast.Assign) and any(isinstance(t, ast.Name) and t.id == x.id for t in a.targets)]
                rep.count('selections')
                if not ok:
                    rep.viol('missing-only', f'{q}:_calc', f'{q} hands over {ast.unparse(n.args[0])} for calculation, which does not depend on what is marked as calculated', f'{f.module.rel}:{n.lineno} {q}')


def stored_at(loop, name):
    """index texts at which an array is stored in the body of a loop"""
    out = []
    for b in loop.body:
        for x in ast.walk(b):
            if isinstance(x, ast.Subscript) and isinstance(x.ctx, ast.Store) and isinstance(x.value, ast.Name) and x.value.id == name:
                e = x.slice.elts[-1] if isinstance(x.slice, ast.Tuple) else x.slice
                out.append((ast.unparse(e), x))
    return out


def marks(f, q, fn, rep):
    params = [a.arg for a in fn.args.args]
    flags = [p for p in params if p in ('gp',)]
    if f.name == 'calc_psf' and len(params) > 2:
        flags = [params[2]]
        data = params[1]
        for loop in walk_no_nested(fn):
            if not isinstance(loop, ast.For):
                continue
            tn = {x.id for x in ast.walk(loop.target) if isinstance(x, ast.Name)}
            d = {e for e, _ in stored_at(loop, data) if e in tn}
            m = {e for e, _ in stored_at(loop, flags[0])}
            rep.count('mark_obligations', len(d))
            if not d:
                continue
            rest = [x for x in walk_no_nested(fn) if isinstance(x, ast.Subscript) and isinstance(x.ctx, ast.Store) and isinstance(x.value, ast.Name) and x.value.id == flags[0] and not any(x is y for b in loop.body for y in ast.walk(b))]
            for e in sorted(d - m):
                # marked all together afterwards, with what the loop ran over
                it = {ast.unparse(y) for y in ast.walk(loop.iter) if isinstance(y, ast.Name)}
                if any(ast.unparse(x.slice) in it or isinstance(x.slice, ast.Slice) and ast.unparse(x.slice) == ':' for x in rest if x.lineno > loop.lineno and up(x) is not None and same_block(x, loop)):
                    continue
                rep.viol('mark-each', f'{q}:{e}', f'{q} stores results at {e} in a loop in which {e} is not marked as calculated', f'{f.module.rel}:{loop.lineno} {q}')


def same_block(x, loop):
    s = x
    while s is not None and not isinstance(s, ast.stmt):
        s = up(s)
    return up(s) is up(loop)


def single(fn, name):
    out = [n for n in walk_no_nested(fn) if isinstance(n, (ast.Assign, ast.AugAssign, ast.For, ast.AnnAssign)) for t in (n.targets if isinstance(n, ast.Assign) else [n.target]) for x in ast.walk(t)
           if isinstance(x, ast.Name) and x.id == name and isinstance(x.ctx, ast.Store)]
    return out[0] if len(out) == 1 and isinstance(out[0], ast.Assign) else None


def positions(f, q, fn, rep):
    for loop in walk_no_nested(fn):
        if not isinstance(loop, ast.For):
            continue
        it = loop.iter
        # for k, v in enumerate(X): arrays calculated from X are indexed with k
        if isinstance(it, ast.Call) and dotted(it.func) == 'enumerate' and len(it.args) == 1 and isinstance(it.args[0], ast.Name) and isinstance(loop.target, ast.Tuple) and all(isinstance(t, ast.Name) for t in loop.target.elts):
            X, (k, v) = it.args[0].id, [t.id for t in loop.target.elts]
            for b in loop.body:
                for n in ast.walk(b):
                    if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Load) and isinstance(n.value, ast.Name):
                        a = single(fn, n.value.id)
                        if a is None or not isinstance(a.value, ast.Call) or not any(isinstance(x, ast.Name) and x.id == X for x in a.value.args) or last(dotted(a.value.func)) in ('len', 'max', 'min', 'arange'):
                            continue
                        rep.count('partial_positions')
                        es = n.slice.elts if isinstance(n.slice, ast.Tuple) else [n.slice]
                        if any(isinstance(e, ast.Name) and e.id == v for e in es):
                            rep.viol('partial-position', f'{q}:{ast.unparse(n)}', f'{ast.unparse(n)}: {n.value.id} has been made for {X} and has to be used at the position {k}', f'{f.module.rel}:{n.lineno} {q}')
        # r = A[slice(*R)]; for i in range(*R): r[i - start]
        if isinstance(it, ast.Call) and dotted(it.func) == 'range' and isinstance(loop.target, ast.Name) and (len(it.args) == 2 or len(it.args) == 1 and isinstance(it.args[0], ast.Starred)):
            args = [ast.unparse(a) for a in it.args]
            if args[0] == '0':
                continue
            for b in loop.body:
                for n in ast.walk(b):
                    if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Load) and isinstance(n.value, ast.Name):
                        a = single(fn, n.value.id)
                        if a is None or not isinstance(a.value, ast.Subscript):
                            continue
                        s = a.value.slice
                        if isinstance(s, ast.Name):
                            d = single(fn, s.id)
                            s = d.value if d is not None else s
                        cut = [ast.unparse(x) for x in s.args] if isinstance(s, ast.Call) and dotted(s.func) == 'slice' else [ast.unparse(s.lower), ast.unparse(s.upper)] if isinstance(s, ast.Slice) and s.lower and s.upper else None
                        if cut != args:
                            continue
                        rep.count('partial_positions')
                        e = n.slice.elts[0] if isinstance(n.slice, ast.Tuple) else n.slice
                        if isinstance(e, ast.Name) and e.id == loop.target.id:
                            rep.viol('partial-position', f'{q}:{ast.unparse(n)}', f'{ast.unparse(n)}: {n.value.id} begins at {cut[0]}, so that its first element has the position 0', f'{f.module.rel}:{n.lineno} {q}')


def limits(f, q, fn, rep):
    found = set()
    for _ in range(3):
        for n in walk_no_nested(fn):
            if isinstance(n, ast.Assign) and len(n.targets) == 1:
                pairs = [(n.targets[0], n.value)]
                if isinstance(n.targets[0], ast.Tuple) and isinstance(n.value, ast.Tuple) and len(n.targets[0].elts) == len(n.value.elts):
                    pairs = list(zip(n.targets[0].elts, n.value.elts))
                for t, v in pairs:
                    if isinstance(t, ast.Name):
                        els = v.elts if isinstance(v, ast.Tuple) else [v]
                        if all(isinstance(e, ast.Call) and last(dotted(e.func)) == 'searchsorted' for e in els):
                            found.add(t.id)
    if not found:
        return
    rep.count('band_limits', len(found))

    def limit(e):
        return isinstance(e, ast.Name) and e.id in found or isinstance(e, ast.Subscript) and isinstance(e.value, ast.Name) and e.value.id in found

    def shifted(e):
        return isinstance(e, ast.BinOp) and isinstance(e.op, (ast.Add, ast.Sub)) and limit(e.left) and isinstance(e.right, ast.Constant)
    for n in walk_no_nested(fn):
        if isinstance(n, ast.Slice) and n.lower is not None and n.upper is not None and limit_like(n, limit, shifted):
            bad = shifted(n.lower) and not (shifted(n.upper) and n.lower.right.value == n.upper.right.value) or shifted(n.upper) and not shifted(n.lower)
        elif isinstance(n, ast.Call) and dotted(n.func) in ('range', 'slice') and len(n.args) == 2 and all(limit(a) or shifted(a) for a in n.args):
            bad = any(shifted(a) for a in n.args)
        else:
            continue
        if bad:
            rep.viol('band-limits', f'{q}:{ast.unparse(n)[:50]}', f'{ast.unparse(n)} leaves out (or adds) a frequency at the limits of the range', f'{f.module.rel}:{getattr(n, "lineno", fn.lineno)} {q}')


def limit_like(n, limit, shifted):
    a, b = n.lower, n.upper
    return (limit(a) or shifted(a)) and (limit(b) or shifted(b)) and ast.unparse(a.left if isinstance(a, ast.BinOp) else a) != ast.unparse(b.left if isinstance(b, ast.BinOp) else b)


def fresh(f, q, fn, rep):
    ind = f.params[1]
    for loop in walk_no_nested(fn):
        if not (isinstance(loop, ast.For) and any(isinstance(x, ast.Name) and x.id == ind for x in ast.walk(loop.iter))):
            continue
        if isinstance(loop.iter, ast.Call) and last(dotted(loop.iter.func)) in ('range', 'arange') and len(loop.iter.args) > 1:
            e = loop.iter.args[1]
            if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr == 'max' or isinstance(e, ast.Call) and dotted(e.func) == 'max' or isinstance(e, ast.Subscript) and ast.unparse(e.slice) == '-1':
                rep.viol('missing-only', f'{q}:last', f'{q} ends before the last requested frequency {ast.unparse(e)}', f'{f.module.rel}:{loop.lineno} {q}')
        inner = {id(x) for b in loop.body for x in ast.walk(b)}
        before = {}
        for n in walk_no_nested(fn):
            if isinstance(n, ast.Assign) and id(n) not in inner:
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        before[t.id] = n
        loopvars = {x.id for b in loop.body for n in ast.walk(b) if isinstance(n, ast.For) for x in ast.walk(n.target) if isinstance(x, ast.Name)}
        for X, a in before.items():
            if not (isinstance(a.value, ast.Call) and last(dotted(a.value.func)) in ('zeros', 'ones', 'empty', 'full', 'zeros_like', 'ones_like', 'empty_like', 'array', 'diag', 'eye')):
                continue
            rep.count('fresh_arrays')
            first = None
            changed = None
            for b in loop.body:
                k = reset(b, X)
                if k and first is None:
                    first = 'reset'
                    break
                c = changes(b, X, loopvars)
                if c is not None:
                    changed = c
                    break
            if changed is not None and first is None:
                rep.viol('fresh-frequency', f'{q}:{X}', f'{X} is changed while a frequency is calculated, on top of what the former frequency left in it', f'{f.module.rel}:{changed.lineno} {q}')
    # arrays made inside the loop are new for every frequency
    for n in walk_no_nested(fn):
        if isinstance(n, ast.Assign) and isinstance(n.value, ast.Call) and last(dotted(n.value.func)) in ('zeros', 'ones', 'empty', 'zeros_like'):
            rep.count('fresh_arrays')


def reset(s, X):
    """the statement gives X a new value as a whole"""
    if isinstance(s, ast.Assign):
        for t in s.targets:
            if isinstance(t, ast.Name) and t.id == X and not any(isinstance(x, ast.Name) and x.id == X for x in ast.walk(s.value)):
                return True
            if isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name) and t.value.id == X and ast.unparse(t.slice) in (':', '...', '(:, :)', ':, :', 'slice(None)'):
                return True
    if isinstance(s, ast.AugAssign) and isinstance(s.op, ast.Mult) and isinstance(s.value, ast.Constant) and s.value.value == 0:
        t = s.target.value if isinstance(s.target, ast.Subscript) else s.target
        return isinstance(t, ast.Name) and t.id == X
    if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute) and s.value.func.attr == 'fill' and isinstance(s.value.func.value, ast.Name):
        return s.value.func.value.id == X
    return False


def changes(s, X, loopvars):
    for n in ast.walk(s):
        if isinstance(n, ast.AugAssign):
            t = n.target
            b = t.value if isinstance(t, ast.Subscript) else t
            if isinstance(b, ast.Name) and b.id == X:
                return n
        if isinstance(n, ast.Assign):
            for t in n.targets:
                if isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name) and t.value.id == X:
                    es = t.slice.elts if isinstance(t.slice, ast.Tuple) else [t.slice]
                    if not all(isinstance(e, ast.Name) and e.id in loopvars or isinstance(e, ast.Slice) and ast.unparse(e) == ':' for e in es):
                        return n
    return None


def check_last_index(prog, rep):
    """result[i]: an index from a caller that is turned into a slice"""
    rep.rule('last-index', 'a single index that is turned into a slice selects the same element, also when it counts from the end (a slice from -1 to 0 is empty)')
    for f, C, q in all_funcs(prog):
        if f.name != '__getitem__':
            continue
        key = f.params[1] if len(f.params) > 1 else None
        names = {key}
        for _ in range(3):
            for n in ast.walk(f.node):
                if isinstance(n, ast.Assign) and any(isinstance(k, ast.Name) and k.id in names for k in ast.walk(n.value)):
                    names |= {t.id for t in n.targets if isinstance(t, ast.Name)}
        for n in ast.walk(f.node):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'slice' and len(n.args) >= 2:
                lo, hi = n.args[:2]
                rep.count('index_slices')
                if isinstance(lo, ast.Name) and lo.id in names and isinstance(hi, ast.BinOp) and isinstance(hi.op, ast.Add) and ast.unparse(hi) in (f'{lo.id} + 1', f'1 + {lo.id}'):
                    # a test that treats negative numbers, or a number made positive before
                    ok = False
                    for k in ast.walk(f.node):
                        if isinstance(k, ast.Compare) and any(isinstance(x, ast.Name) and x.id == lo.id for x in ast.walk(k)) and any(isinstance(o, (ast.Lt, ast.LtE, ast.Gt, ast.GtE)) or isinstance(c, ast.UnaryOp) for o, c in zip(k.ops, k.comparators)):
                            ok = True
                        if isinstance(k, ast.Assign) and not any(x is n for x in ast.walk(k)) and any(isinstance(t, ast.Name) and t.id == lo.id for t in k.targets) and any(
                                isinstance(x, ast.BinOp) and isinstance(x.op, (ast.Mod, ast.Add)) or isinstance(x, ast.Attribute) and x.attr == 'indices' for x in ast.walk(k.value)):
                            ok = True
                    if not ok:
                        rep.viol('last-index', f'{q}:slice', f'{ast.unparse(n)} selects nothing for the index -1', f'{f.module.rel}:{n.lineno} {q}')
