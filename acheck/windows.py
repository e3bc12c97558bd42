"""Windows over a stream: a buffer whose rows are moved on while a cursor runs through it (part of P07 and P06)."""

import ast

from .model import dotted, walk_no_nested
from .p07 import Gens, block_loops
from .p24 import all_funcs
from .p33 import Lin, Sizes, helper, index_elts, reads_first


def slice0(sub):
    e = index_elts(sub)[0]
    return e if isinstance(e, ast.Slice) and e.step is None else None


def bounds(S, sub, total):
    """linear lower and upper row of a slice, or None"""
    sl = slice0(sub)
    if sl is None:
        return None
    out = []
    for e, default in ((sl.lower, Lin()), (sl.upper, total)):
        v = default if e is None else S.lin(e)
        if v is None:
            return None
        if e is not None and isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.USub):
            if total is None:
                return None
            v = v + total
        out.append(v)
    return out


def unwrap(e):
    while isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr in ('copy', 'astype') or isinstance(e, ast.Call) and dotted(e.func) in ('array', 'np.array') and e.args:
        e = e.func.value if isinstance(e.func, ast.Attribute) and e.func.attr in ('copy', 'astype') else e.args[0]
    return e


def total_rows(S, fn, X):
    for n in ast.walk(fn):
        if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == X for t in n.targets) and isinstance(n.value, ast.Call) \
                and (dotted(n.value.func) or '').split('.')[-1] in ('empty', 'zeros', 'ones', 'full'):
            sh = n.value.args[0] if n.value.args else next((k.value for k in n.value.keywords if k.arg == 'shape'), None)
            if isinstance(sh, ast.Name):
                sh = S.defs.get(sh.id)
            if isinstance(sh, ast.Tuple) and sh.elts:
                return S.lin(sh.elts[0])
    return None


def order_of(fn):
    out = {}

    def go(n):
        out[id(n)] = len(out)
        for c in ast.iter_child_nodes(n):
            go(c)
    go(fn)
    return out


def appended(S, fn, n, stmts, rep, f, q):
    """X = concatenate([X[s:], zeros(s)]): what comes next belongs behind the rows that were kept"""
    if not (isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and isinstance(n.value, ast.Call)
            and (dotted(n.value.func) or '').split('.')[-1] in ('concatenate', 'vstack', 'append') and n.value.args):
        return
    X = n.targets[0].id
    parts = n.value.args[0].elts if isinstance(n.value.args[0], (ast.List, ast.Tuple)) else n.value.args[:2]
    if len(parts) != 2 or not (isinstance(parts[0], ast.Subscript) and isinstance(parts[0].value, ast.Name) and parts[0].value.id == X and slice0(parts[0]) is not None):
        return
    z = parts[1]
    if isinstance(z, ast.Name) and isinstance(S.defs.get(z.id), ast.expr):
        z = S.defs[z.id]
    if not (isinstance(z, ast.Call) and (dotted(z.func) or '').split('.')[-1] in ('zeros', 'empty') and z.args):
        return
    d0 = z.args[0].elts[0] if isinstance(z.args[0], (ast.Tuple, ast.List)) and z.args[0].elts else z.args[0]
    sl = slice0(parts[0])
    if sl.upper is not None or sl.lower is None or sl.step is not None:
        return
    s, k = S.lin(sl.lower), S.lin(d0)
    inits = [x for x in walk_no_nested(fn) if isinstance(x, ast.Assign) and any(isinstance(t, ast.Name) and t.id == X for t in x.targets) and isinstance(x.value, ast.Call)
             and (dotted(x.value.func) or '').split('.')[-1] in ('zeros', 'empty') and x.value.args]
    if s is None or k is None or len(inits) != 1:
        return
    a = inits[0].value.args[0]
    total = S.lin(a.elts[0] if isinstance(a, (ast.Tuple, ast.List)) and a.elts else a)
    if total is None:
        return
    rep.count('appended_buffers')
    key, wh = f'{f.module.name}:{q}:{X}', f'{f.module.rel}:{n.lineno} {q}'
    if (s - k).d:
        rep.viol('window', f'{key}:rows', f'{ast.unparse(n)}: the number of rows that are dropped is not the number of rows that are added', wh)
    for m in stmts:
        if isinstance(m, ast.Assign) and m is not n:
            for t in m.targets:
                if isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name) and t.value.id == X and slice0(t) is not None and slice0(t).lower is not None:
                    lo = S.lin(slice0(t).lower)
                    if lo is not None and (total - s - lo).d:
                        rep.viol('window', f'{key}:new', f'{ast.unparse(t)} is not where the rows that were kept end ({ast.unparse(n)})', wh)


def check_shift(prog, rep):
    rep.rule('window', 'a buffer through which a window runs: when its rows are moved on, the position of the window moves by the same number of rows, it starts where the '
             'first rows are put, and every complete window is delivered')
    gens = Gens(prog)
    for f, C, q in all_funcs(prog):
        fn = f.node
        loops = list(block_loops(gens, fn))
        if not loops:
            continue
        S = Sizes(fn)
        pos = order_of(fn)
        for loop, names in loops:
            stmts = [n for b in loop.body for n in ast.walk(b)]
            shifts = []
            for n in stmts:
                if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Subscript) and isinstance(n.targets[0].value, ast.Name):
                    v = unwrap(n.value)
                    if isinstance(v, ast.Subscript) and isinstance(v.value, ast.Name) and v.value.id == n.targets[0].value.id and slice0(v) is not None and slice0(n.targets[0]) is not None:
                        shifts.append((n, n.targets[0].value.id, v))
            # a buffer that is only filled from some row on, although its window moves back
            for X in sorted({n.targets[0].value.id for n in stmts if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Subscript) and isinstance(n.targets[0].value, ast.Name)}):
                lows, other = [], False
                for x in ast.walk(fn):
                    if isinstance(x, ast.Name) and x.id == X and isinstance(x.ctx, ast.Load):
                        p = x._parent
                        if isinstance(p, ast.Subscript) and p.value is x:
                            if isinstance(p.ctx, ast.Store):
                                bb = bounds(S, p, None)
                                lows.append(bb[0] if bb else None)
                        else:
                            other = True
                if other or not lows or any(w is None or not w.atoms() or any(c < 0 for c in w.d.values()) or any(k.isidentifier() and k not in S.params for k in w.atoms()) for w in lows):
                    continue
                if total_rows(S, fn, X) is None:
                    continue
                moved = {t for x in stmts if isinstance(x, ast.AugAssign) and isinstance(x.op, ast.Sub) and isinstance(x.target, ast.Name) for t in [x.target.id]}
                for r in stmts:
                    if isinstance(r, ast.Subscript) and isinstance(r.ctx, ast.Load) and isinstance(r.value, ast.Name) and r.value.id == X and slice0(r) is not None and slice0(r).lower is not None \
                            and {x.id for x in ast.walk(slice0(r).lower) if isinstance(x, ast.Name)} & moved:
                        rep.viol('window', f'{f.module.name}:{q}:{X}:filled', f'the window moves back to rows of {X} that nothing is ever stored in', f'{f.module.rel}:{r.lineno} {q}')
                        break
            # the last block has fewer rows
            for n in stmts:
                if isinstance(n, ast.Assign) and isinstance(n.value, ast.Name) and n.value.id in names and isinstance(n.targets[0], ast.Subscript) and slice0(n.targets[0]) is not None \
                        and isinstance(loop.iter, ast.Call) and isinstance(loop.iter.func, ast.Attribute) and loop.iter.func.attr == 'result' \
                        and loop.iter.args and not isinstance(loop.iter.args[0], ast.Constant):
                    bb = bounds(S, n.targets[0], None) if slice0(n.targets[0]).upper is not None else None
                    num = S.lin(loop.iter.args[0])
                    p = n._parent
                    while p is not loop and not (isinstance(p, ast.If) and any(x in ast.unparse(p.test) for x in ('shape', 'len(', *[k for k, d in S.defs.items() if 'shape' in ast.unparse(d)]))):
                        p = p._parent
                    if bb and num is not None and p is loop and num.atoms() and not ((bb[1] - bb[0]) - num).d:
                        rep.viol('window', f'{f.module.name}:{q}:short', f'{ast.unparse(n)}: the last block of the source can have fewer rows', f'{f.module.rel}:{n.lineno} {q}')
            for n in stmts:
                appended(S, fn, n, stmts, rep, f, q)
            for n, X, v in shifts:
                total = total_rows(S, fn, X)
                a, b = bounds(S, n.targets[0], total) or (None, None)
                c, d = bounds(S, v, total) or (None, None)
                if a is None or c is None:
                    continue
                k = c - a
                key = f'{f.module.name}:{q}:{X}'
                wh = f'{f.module.rel}:{n.lineno} {q}'
                rep.count('shifted_buffers')
                if b is not None and d is not None and not ((b - a) - (d - c)).d == {}:
                    rep.viol('window', f'{key}:rows', f'{ast.unparse(n)}: different numbers of rows', wh)
                fresh = []
                for m in stmts:
                    if isinstance(m, ast.Assign) and m is not n:
                        for t in m.targets:
                            if isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name) and t.value.id == X and slice0(t) is not None:
                                bb = bounds(S, t, total)
                                if bb:
                                    fresh.append((m, bb[0], bb[1]))
                if len(fresh) != 1:
                    continue
                m, e, end = fresh[0]
                # new rows go where the moved rows end
                if b is not None and e is not None and (e - b).d:
                    rep.viol('window', f'{key}:new', f'new rows are put at another place than behind the rows that were moved ({ast.unparse(n)})', wh)
                for r in stmts:
                    if not (isinstance(r, ast.Subscript) and isinstance(r.ctx, ast.Load) and isinstance(r.value, ast.Name) and r.value.id == X and r is not v and slice0(r) is not None):
                        continue
                    lo = slice0(r).lower
                    while isinstance(lo, ast.Call) and lo.args and dotted(lo.func) in ('int', 'round'):
                        lo = lo.args[0]
                    if not isinstance(lo, ast.Name):
                        continue
                    cur = lo.id
                    adv = [x for x in stmts if isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name) and x.target.id == cur and isinstance(x.op, ast.Add)
                           or isinstance(x, ast.Assign) and any(isinstance(t, ast.Name) and t.id == cur for t in x.targets) and isinstance(x.value, ast.BinOp) and isinstance(x.value.op, ast.Add)]
                    if not adv:
                        continue
                    rep.count('windows')
                    saved = S.defs.pop(cur, None)
                    back = []
                    for x in stmts:
                        if isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name) and x.target.id == cur and isinstance(x.op, ast.Sub):
                            back.append((x, S.lin(x.value)))
                        elif isinstance(x, ast.Assign) and any(isinstance(t, ast.Name) and t.id == cur for t in x.targets) and x not in adv:
                            w = S.lin(x.value)
                            back.append((x, None if w is None else Lin({cur: 1}) - w if cur in w.d else 'set'))
                    if not back:
                        rep.viol('window', f'{key}:cursor', f'the rows of {X} are moved on but the position {cur} is not', wh)
                    for x, w in back:
                        if isinstance(w, str):
                            rep.viol('window', f'{key}:cursor', f'the position {cur} is set anew although the rows of {X} are only moved on', f'{f.module.rel}:{x.lineno} {q}')
                        elif w is not None and (w - k).d:
                            rep.viol('window', f'{key}:cursor', f'the rows of {X} are moved by {ast.unparse(slice0(v).lower) if slice0(v).lower else 0} but the position {cur} by another number', f'{f.module.rel}:{x.lineno} {q}')
                    # where it starts
                    inits = [x for x in walk_no_nested(fn) if isinstance(x, ast.Assign) and any(isinstance(t, ast.Name) and t.id == cur for t in x.targets) and pos[id(x)] < pos[id(loop)]]
                    if inits and e is not None:
                        w = S.lin(inits[-1].value)
                        want = e if pos[id(m)] < pos[id(n)] else e + k
                        if w is not None and (w - want).d:
                            rep.viol('window', f'{key}:start', f'the first window starts at {ast.unparse(inits[-1].value)}, but the first rows of {X} are put elsewhere', f'{f.module.rel}:{inits[-1].lineno} {q}')
                    # every complete window
                    hi = slice0(r).upper
                    p = r
                    while p is not loop and not isinstance(p, ast.While):
                        p = p._parent
                    if isinstance(p, ast.While) and hi is not None and isinstance(p.test, ast.Compare) and len(p.test.ops) == 1 and end is not None:
                        hi = S.lin(hi)
                        l, op, rr = p.test.left, p.test.ops[0], p.test.comparators[0]
                        if isinstance(op, (ast.Gt, ast.GtE)):
                            l, rr = rr, l
                        l, rr = S.lin(l), S.lin(rr)
                        if hi is not None and l is not None and rr is not None and isinstance(op, (ast.Lt, ast.LtE, ast.Gt, ast.GtE)):
                            D = l - rr
                            if isinstance(op, (ast.Lt, ast.Gt)):
                                D = D + Lin({'': 1})
                            x = D - (hi - end)
                            if x.d:
                                rep.viol('window', f'{key}:complete', f'the test {ast.unparse(p.test)} does not let through exactly the windows that are complete', f'{f.module.rel}:{p.lineno} {q}')
                    if saved is not None:
                        S.defs[cur] = saved
    rep.floor('shifted_buffers', 1)


def check_reset(prog, rep):
    rep.rule('sum-per-row', 'what is summed up for every row of a block starts anew for every row (or never), not with every block')
    gens = Gens(prog)
    for f, C, q in all_funcs(prog):
        fn = f.node
        for loop, names in block_loops(gens, fn):
            for inner in [n for b in loop.body for n in ast.walk(b) if isinstance(n, ast.For)]:
                it = ast.unparse(inner.iter)
                if not any(isinstance(x, ast.Name) and x.id in names for x in ast.walk(inner.iter)):
                    continue
                inb = {id(x) for b in inner.body for x in ast.walk(b)}
                sums = set()
                for x in ast.walk(inner):
                    if isinstance(x, ast.Call) and isinstance(x.func, ast.Name):
                        g = helper(prog, f.module, x.func.id)
                        for i, a in enumerate(x.args):
                            if isinstance(a, ast.Name) and g is not None and adds_to(g, i):
                                sums.add(a.id)
                    elif isinstance(x, ast.AugAssign) and isinstance(x.op, ast.Add):
                        t = x.target
                        if isinstance(t, ast.Subscript) and not any(isinstance(y, ast.Name) for y in ast.walk(t.slice)):
                            t = t.value
                        if isinstance(t, ast.Name):
                            sums.add(t.id)
                for z in sorted(sums):
                    ren = []
                    for x in ast.walk(fn):
                        if isinstance(x, ast.Assign):
                            for t in x.targets:
                                t0 = t.value if isinstance(t, ast.Subscript) else t
                                if isinstance(t0, ast.Name) and t0.id == z:
                                    ren.append(x)
                        elif isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == 'fill' and isinstance(x.func.value, ast.Name) and x.func.value.id == z:
                            ren.append(x)
                    if any(id(x) in inb for x in ren):
                        continue
                    # is the sum delivered for every row?
                    out = [x for x in ast.walk(inner) if isinstance(x, ast.Assign) and any(isinstance(t, ast.Subscript) for t in x.targets)
                           and depends(inner, x.value, z)]
                    if not out:
                        continue
                    rep.count('row_sums')
                    if any(id(x) not in inb and inside(x, loop) for x in ren):
                        rep.viol('sum-per-row', f'{f.module.name}:{q}:{z}', f'{z} is summed up over the rows of one block ({it}) and delivered for each of them: the result depends on where blocks begin', f'{f.module.rel}:{inner.lineno} {q}')


def adds_to(g, i):
    """does the function add to what its array parameter holds"""
    if i >= len(g.params):
        return False
    p = g.params[i]
    for x in ast.walk(g.node):
        if isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Subscript) and isinstance(x.target.value, ast.Name) and x.target.value.id == p:
            return reads_first(g, i)
    return False


def inside(n, loop):
    while n is not None and n is not loop:
        n = getattr(n, '_parent', None)
    return n is loop


def depends(root, e, z):
    names = {x.id for x in ast.walk(e) if isinstance(x, ast.Name)}
    for _ in range(4):
        more = set()
        for x in ast.walk(root):
            if isinstance(x, ast.Assign) and any(isinstance(t, ast.Name) and t.id in names for t in x.targets):
                more |= {y.id for y in ast.walk(x.value) if isinstance(y, ast.Name)}
        names |= more
    return z in names


# ------------------------------------------------------------------ buffers of samples
def check_buffers(prog, rep):
    rep.rule('drained', 'rows that are left at the end are delivered until none is left')
    rep.rule('filled', 'a buffer asks for a block whenever there is room for one')
    rep.rule('long-enough', 'a buffer of samples is as long as the rows to be read plus what a block of the source can leave unfilled')
    levels = {}
    for C in prog.all_classes():
        for name, m in C.methods.items():
            if name.startswith('_get_'):
                rets = [n.value for n in ast.walk(m.node) if isinstance(n, ast.Return) and n.value is not None]
                if len(rets) == 1 and isinstance(rets[0], ast.BinOp) and isinstance(rets[0].op, ast.Sub) and 'shape[0]' in ast.unparse(rets[0].left) and isinstance(rets[0].right, ast.Attribute):
                    levels.setdefault(C.name, {})[name[5:]] = rets[0].right.attr
    for f, C, q in all_funcs(prog):
        fn = f.node
        S = Sizes(fn)
        lv = {}
        if C is not None:
            for K in C.mro():
                lv.update(levels.get(K.name, {}))
        me = f.params[0] if f.params else None
        for n in walk_no_nested(fn):
            if isinstance(n, ast.While) and isinstance(n.test, ast.Compare) and len(n.test.ops) == 1 and isinstance(n.test.ops[0], (ast.Gt, ast.GtE, ast.Lt, ast.LtE)):
                Q, op, B = n.test.left, n.test.ops[0], n.test.comparators[0]
                if isinstance(op, (ast.Lt, ast.LtE)):
                    Q, B, op = B, Q, ast.Gt() if isinstance(op, ast.Lt) else ast.GtE()
                left = isinstance(Q, ast.Attribute) and isinstance(Q.value, ast.Name) and Q.value.id == me and Q.attr in lv
                if isinstance(Q, ast.Name):
                    left = any(isinstance(x, ast.AugAssign) and isinstance(x.op, ast.Sub) and isinstance(x.target, ast.Name) and x.target.id == Q.id for x in ast.walk(n))
                if left and f.generator and any(isinstance(x, (ast.Yield, ast.YieldFrom)) for b in n.body for x in ast.walk(b)):
                    rep.count('drain_loops')
                    b = S.lin(B)
                    if b is not None and (b + Lin({'': -1 if isinstance(op, ast.GtE) else 0})).d and not any(v < 0 for v in b.d.values()) and fn.body and fn.body[-1] is n:
                        rep.viol('drained', f'{f.module.name}:{q}', f'{ast.unparse(n.test)}: the rows that are left after the last full block are not delivered', f'{f.module.rel}:{n.lineno} {q}')
                # room for a block
                if isinstance(Q, ast.Attribute) and Q.attr in lv.values() and isinstance(op, ast.Gt):
                    asked = [x.args[0] for x in ast.walk(fn) if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == 'result' and x.args]
                    b = S.lin(B)
                    if b is not None and any(S.lin(a) is not None and not (S.lin(a) - b).d for a in asked):
                        rep.viol('filled', f'{f.module.name}:{q}', f'{ast.unparse(n.test)}: no block is requested although there is room for exactly one; fewer rows than needed are there', f'{f.module.rel}:{n.lineno} {q}')
                if isinstance(Q, ast.Attribute) and Q.attr in lv.values():
                    rep.count('fill_loops')
        for n in walk_no_nested(fn):
            if not (isinstance(n, ast.Call) and (dotted(n.func) or '').split('.')[-1] == 'SamplesBuffer'):
                continue
            kw = {k.arg: k.value for k in n.keywords}
            if 'length' not in kw:
                continue
            num = next((p for p in f.params[1:] + list(f.kwonly)), None)
            reads = requested(fn, n)
            if reads is None:
                continue
            rep.count('sample_buffers')
            E = lower(S, kw['length'])
            num = S.lin(reads)
            want = S.lin(kw['result_num']) if 'result_num' in kw else num
            s = S.lin(kw['source_num']) if 'source_num' in kw else num
            if E is None or want is None or s is None or num is None:
                continue
            need = want if not (s - num).d else want + s + Lin({'': -1})
            d = E - need
            if any(v < 0 for k, v in d.d.items()):
                rep.viol('long-enough', f'{f.module.name}:{q}', f'the length {ast.unparse(kw["length"])} does not always hold {ast.unparse(kw.get("result_num", reads))} rows: blocks in between are shorter', f'{f.module.rel}:{n.lineno} {q}')
            # rows read ahead are read again in the next block
            ahead = want - num
            forget = kw.get('shift_index_by')
            if ahead.d and all(v > 0 for v in ahead.d.values()) and not (isinstance(forget, ast.Constant) and forget.value == 'num') and (forget is None or isinstance(forget, ast.Constant)):
                rep.viol('long-enough', f'{f.module.name}:{q}:ahead', f'{ast.unparse(kw["result_num"])} rows are read and forgotten although a block has {ast.unparse(reads)} rows: the rows read ahead are lost', f'{f.module.rel}:{n.lineno} {q}')
            short(f, q, fn, n, S, want, num, reads, rep)
            # a buffer that reads from the object itself
            if isinstance(kw.get('source'), ast.Name) and kw['source'].id == me:
                p, c = n._parent, n
                ok = None
                while p is not fn:
                    if isinstance(p, ast.If) and isinstance(p.test, ast.Compare) and len(p.test.ops) == 1 and isinstance(p.test.ops[0], (ast.Eq, ast.NotEq)):
                        inbody = any(c is x for x in p.body)
                        if inbody == isinstance(p.test.ops[0], ast.NotEq):
                            l, r = S.lin(p.test.left), S.lin(p.test.comparators[0])
                            ok = l is not None and r is not None and (not (l - s).d or not (r - s).d)
                    p, c = p._parent, p
                if ok is False:
                    rep.viol('long-enough', f'{f.module.name}:{q}:self', f'the buffer requests blocks of {ast.unparse(kw.get("source_num", reads))} from the object itself, which are again delivered through a buffer', f'{f.module.rel}:{n.lineno} {q}')
    rep.floor('sample_buffers', 2)


def short(f, q, fn, call, S, want, num, reads, rep):
    """the last block: as many rows are delivered as there are without those read ahead"""
    if not isinstance(reads, ast.Name):
        return
    buf = {t.id for t in call._parent.targets if isinstance(t, ast.Name)} if isinstance(call._parent, ast.Assign) else set()
    for s in walk_no_nested(fn):
        if not (isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and s.targets[0].id == reads.id):
            continue
        test = next((p.test for p in up(s, fn) if isinstance(p, ast.If) and any(x is s for x in p.body)), None)
        if test is None or not any(isinstance(x, ast.Attribute) and x.attr == 'result_num' and isinstance(x.value, ast.Name) and x.value.id in buf for x in ast.walk(test)):
            continue
        v = S.lin(s.value)
        rows = [k for k in (v.atoms() if v is not None else {}) if '.shape[0]' in k]
        if len(rows) != 1 or v.d[rows[0]] != 1 or any('(' in k for k in v.atoms() if k != rows[0]):
            continue
        rep.count('short_blocks')
        gap = Lin({rows[0]: 1}) - v - (want - num)
        if gap.d:
            rep.viol('long-enough', f'{f.module.name}:{q}:last', f'{ast.unparse(s)[:60]}: the last block of {rows[0]} rows does not give that many, {ast.unparse(call)[:20]} reads {ast.unparse(reads)} and the rows ahead', f'{f.module.rel}:{s.lineno} {q}')


def up(n, top):
    n = n._parent
    while n is not None and n is not top:
        yield n
        n = n._parent


def check_early_end(prog, rep):
    rep.rule('early-end', 'a generator does not stop after a block that was not shortened')
    for f, C, q in all_funcs(prog):
        if not f.generator or '.demo' in f.module.name:
            continue
        fn = f.node
        for loop in walk_no_nested(fn):
            if not isinstance(loop, (ast.For, ast.While)):
                continue
            for b in loop.body:
                for n in ast.walk(b):
                    if isinstance(n, ast.If) and any(isinstance(x, (ast.Break, ast.Return)) for x in n.body) and isinstance(n.test, ast.Compare) and len(n.test.ops) == 1:
                        sides = [rowcount(loop, x) for x in (n.test.left, n.test.comparators[0])]
                        if None in sides or sides[0] != sides[1]:
                            continue
                        rep.count('ends_by_length')
                        if isinstance(n.test.ops[0], (ast.GtE, ast.LtE, ast.Eq)):
                            rep.viol('early-end', f'{f.module.name}:{q}', f'{ast.unparse(n.test)}: the generator stops after a block that has all its rows', f'{f.module.rel}:{n.lineno} {q}')


def rowcount(loop, e, depth=0):
    """the array whose number of rows the expression is"""
    if isinstance(e, ast.Subscript) and isinstance(e.value, ast.Attribute) and e.value.attr == 'shape' and isinstance(e.slice, ast.Constant) and e.slice.value == 0 and isinstance(e.value.value, ast.Name):
        return e.value.value.id
    if isinstance(e, ast.Call) and dotted(e.func) == 'len' and e.args and isinstance(e.args[0], ast.Name):
        return e.args[0].id
    if isinstance(e, ast.Name) and depth < 2:
        got = []
        for b in loop.body:
            for n in ast.walk(b):
                if isinstance(n, ast.Assign):
                    for t in n.targets:
                        if isinstance(t, ast.Name) and t.id == e.id:
                            got.append(rowcount(loop, n.value, depth + 1))
                        elif isinstance(t, ast.Tuple) and t.elts and isinstance(t.elts[0], ast.Name) and t.elts[0].id == e.id and isinstance(n.value, ast.Attribute) and n.value.attr == 'shape' \
                                and isinstance(n.value.value, ast.Name):
                            got.append(n.value.value.id)
        if len(got) == 1:
            return got[0]
    return None


def requested(fn, call):
    """the block size the buffer is asked for"""
    names = set()
    p = call._parent
    if isinstance(p, ast.Assign):
        names = {t.id for t in p.targets if isinstance(t, ast.Name)}
    for x in ast.walk(fn):
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == 'result' and x.args:
            if x.func.value is call or isinstance(x.func.value, ast.Name) and x.func.value.id in names:
                return x.args[0]
    return None


def lower(S, e, depth=0):
    """a linear lower bound of a length (sizes are positive integers), or None"""
    if depth > 8:
        return None
    if isinstance(e, ast.Name) and e.id in S.defs:
        return lower(S, S.defs[e.id], depth + 1)
    if isinstance(e, ast.Call) and (dotted(e.func) or '').split('.')[-1] in ('int', 'max') and len(e.args) == 1:
        return lower(S, e.args[0], depth + 1)
    if isinstance(e, ast.Call) and (dotted(e.func) or '').split('.')[-1] == 'max' and len(e.args) == 2:
        return None
    if isinstance(e, ast.BinOp) and isinstance(e.op, (ast.Add, ast.Sub)):
        a, b = lower(S, e.left, depth + 1), S.lin(e.right)
        if isinstance(e.op, ast.Add):
            b = lower(S, e.right, depth + 1)
            return None if a is None or b is None else a + b
        return None if a is None or b is None else a - b
    if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Mult):
        for a, b in ((e.left, e.right), (e.right, e.left)):
            r = times(S, a, b, depth)
            if r is not None:
                return r
        v = S.lin(e)
        return v if v is not None and not any('*' in k or '/' in k for k in v.atoms()) else None
    v = S.lin(e)
    if v is None or any('(' in k or '/' in k or '*' in k for k in v.atoms()):
        return None
    return v


def times(S, a, b, depth):
    """lower bound of a * b where a is a rounded up quotient by b (plus whole numbers)"""
    while isinstance(a, ast.Name) and a.id in S.defs:
        a = S.defs[a.id]
    if isinstance(a, ast.Call) and (dotted(a.func) or '').split('.')[-1] in ('int', 'floor') and a.args:
        x = a.args[0]
        while isinstance(x, ast.Name) and x.id in S.defs:
            x = S.defs[x.id]
        if isinstance(x, ast.BinOp) and isinstance(x.op, ast.Div):
            a = ast.BinOp(x.left, ast.FloorDiv(), x.right)
        else:
            return times(S, x, b, depth)
    if isinstance(a, ast.BinOp) and isinstance(a.op, ast.FloorDiv):
        num, den, bb = S.lin(a.left), S.lin(a.right), S.lin(b)
        if num is not None and den is not None and bb is not None and not (den - bb).d:
            return num - den + Lin({'': 1})
        return None
    if isinstance(a, ast.UnaryOp) and isinstance(a.op, ast.USub) and isinstance(a.operand, ast.BinOp) and isinstance(a.operand.op, ast.FloorDiv) and isinstance(a.operand.left, ast.UnaryOp):
        den, bb = S.lin(a.operand.right), S.lin(b)
        if den is not None and bb is not None and not (den - bb).d:
            return S.lin(a.operand.left.operand)
        return None
    if isinstance(a, ast.Call) and (dotted(a.func) or '').split('.')[-1] == 'ceil' and a.args:
        x = a.args[0]
        while isinstance(x, ast.Name) and x.id in S.defs:
            x = S.defs[x.id]
        if isinstance(x, ast.BinOp) and isinstance(x.op, ast.Div):
            den, bb = S.lin(x.right), S.lin(b)
            if den is not None and bb is not None and not (den - bb).d:
                return S.lin(x.left)
        return None
    if isinstance(a, ast.BinOp) and isinstance(a.op, (ast.Add, ast.Sub)):
        bb = S.lin(b)
        for x, y in ((a.left, a.right), (a.right, a.left)):
            c = S.lin(y)
            if c is not None and c.is_const() and bb is not None:
                r = times(S, x, b, depth)
                if r is not None and (isinstance(a.op, ast.Add) or x is a.left):
                    return r + bb.scale(c.const if isinstance(a.op, ast.Add) else -c.const)
    return None
