"""P07: every block continues where the one before ended."""

import ast

from .model import dotted, walk_no_nested
from .p24 import all_funcs

FILTERS = {'sosfilt': 'zi', 'lfilter': 'zi'}
# functions that combine rows; without a state that is carried over, the result depends on where blocks begin
MIXING = {'cumsum', 'cumprod', 'nancumsum', 'cumulative_trapezoid', 'cumtrapz', 'diff', 'ediff1d', 'gradient', 'sosfiltfilt', 'filtfilt', 'hilbert', 'detrend', 'resample',
          'resample_poly', 'decimate', 'convolve', 'fftconvolve', 'oaconvolve', 'correlate', 'roll', 'unwrap', 'savgol_filter', 'medfilt', 'uniform_filter1d',
          'gaussian_filter1d', 'accumulate', 'convolve1d', 'correlate1d'}
ZERO = {'zeros', 'zeros_like', 'empty', 'empty_like'}


def last(d):
    return (d or '').split('.')[-1]


class Gens:
    """which expressions iterate over blocks"""

    def __init__(self, prog):
        self.names = set()
        for f, c, q in all_funcs(prog):
            if f.generator and f.name != 'result':
                self.names.add(f.name)

    def is_gen(self, e, loc):
        while isinstance(e, ast.Call) and last(dotted(e.func)) in ('enumerate', 'iter', 'zip', 'chain', 'islice', 'takewhile') and e.args:
            if any(self.is_gen(a, loc) for a in e.args):
                return True
            return False
        if isinstance(e, ast.GeneratorExp) and e.generators:
            return self.is_gen(e.generators[0].iter, loc)
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute):
            if e.func.attr == 'result':
                return True
            if e.func.attr in self.names and isinstance(e.func.value, ast.Name):
                return True
        return isinstance(e, ast.Name) and e.id in loc

    def local(self, fn):
        loc = set()
        for n in walk_no_nested(fn):
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and self.is_gen(n.value, ()):
                loc.add(n.targets[0].id)
        return loc


def block_loops(gens, fn):
    """(loop node, names of the block)"""
    loc = gens.local(fn)
    for n in walk_no_nested(fn):
        if isinstance(n, (ast.For, ast.AsyncFor)) and gens.is_gen(n.iter, loc):
            t = n.target
            enum = isinstance(n.iter, ast.Call) and last(dotted(n.iter.func)) == 'enumerate'
            if enum and isinstance(t, ast.Tuple) and len(t.elts) == 2:
                t = t.elts[1]
            yield n, {x.id for x in ast.walk(t) if isinstance(x, ast.Name)}
        elif isinstance(n, ast.While):
            names = set()
            for x in ast.walk(n):
                if isinstance(x, ast.Assign) and isinstance(x.value, ast.Call) and last(dotted(x.value.func)) == 'next' and x.value.args and gens.is_gen(x.value.args[0], loc):
                    names |= {y.id for t in x.targets for y in ast.walk(t) if isinstance(y, ast.Name)}
            if names:
                yield n, names


def inside(n, loop):
    cur = n
    while cur is not None:
        p = getattr(cur, '_parent', None)
        if p is loop:
            return cur in loop.body or not isinstance(loop, (ast.For, ast.While))
        cur = p
    return False


def stmt_of(n):
    while not isinstance(n, ast.stmt):
        n = n._parent
    return n


def key(e):
    return ast.unparse(e)


def base(e):
    while isinstance(e, (ast.Subscript, ast.Starred)):
        e = e.value
    return dotted(e)


def stores(root, name):
    """statements under root that bind name, or write into it"""
    out = []
    for n in ast.walk(root):
        if isinstance(n, (ast.Assign, ast.AugAssign, ast.AnnAssign, ast.For, ast.NamedExpr, ast.With)):
            ts = n.targets if isinstance(n, ast.Assign) else [n.target] if isinstance(n, (ast.AugAssign, ast.AnnAssign, ast.For, ast.NamedExpr)) else [i.optional_vars for i in n.items if i.optional_vars]
            for t in ts:
                elts = [t]
                while elts:
                    x = elts.pop()
                    if isinstance(x, (ast.Tuple, ast.List)):
                        elts += x.elts
                    elif base(x) == name:
                        out.append((n, x))
        elif isinstance(n, ast.Call):
            for k in n.keywords:
                if k.arg == 'out' and base(k.value) == name:
                    out.append((n, k.value))
            if isinstance(n.func, ast.Attribute) and base(n.func.value) == name and n.func.attr in ('fill', 'append', 'extend', 'update', 'put', 'itemset', 'sort', 'resize', 'insert', 'pop', 'appendleft', 'popleft'):
                out.append((n, n.func.value))
    return out


def passed(root, name):
    """calls that receive name and may change it"""
    return [n for n in ast.walk(root) if isinstance(n, ast.Call) and any(base(a) == name and isinstance(a, ast.Name) for a in n.args)]


def first_only(s, loop):
    """is statement s executed in the first iteration only (guarded by the index or by a None test)"""
    cur = s
    while cur is not loop and cur is not None:
        p = getattr(cur, '_parent', None)
        if isinstance(p, ast.If) and cur in p.body:
            t = p.test
            if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
                return True
            if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], (ast.Eq, ast.Is)):
                return True
            if isinstance(t, ast.Name):
                return True
        cur = p
    return False


def of_shape(x):
    p = getattr(x, '_parent', None)
    if isinstance(p, ast.Attribute) and p.attr in ('shape', 'size', 'ndim', 'dtype'):
        return True
    return isinstance(p, ast.Call) and last(dotted(p.func)) == 'len'


def derived(fn_loop, names):
    """names computed from the block inside the loop"""
    out = set(names)
    changed = True
    while changed:
        changed = False
        for n in ast.walk(fn_loop):
            if isinstance(n, ast.Assign) and any(isinstance(x, ast.Name) and x.id in out and not of_shape(x) for x in ast.walk(n.value)):
                for t in n.targets:
                    for x in (t.elts if isinstance(t, (ast.Tuple, ast.List)) else [t]):
                        if isinstance(x, ast.Name) and x.id not in out:
                            out.add(x.id)
                            changed = True
    return out


def carried(loop, fn):
    """names whose value is carried from one iteration to the next"""
    out = set()
    written = {}
    for n in ast.walk(loop):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            written.setdefault(n.id, []).append(n)
        if isinstance(n, (ast.Assign, ast.AugAssign)):
            for t in (n.targets if isinstance(n, ast.Assign) else [n.target]):
                for x in (t.elts if isinstance(t, (ast.Tuple, ast.List)) else [t]):
                    if isinstance(x, ast.Subscript) and base(x):
                        written.setdefault(base(x), []).append(x)
    for name, ws in written.items():
        inits = [s for s, t in stores(fn, name) if not inside(s, loop) and s is not loop]
        guarded = [w for w in ws if first_only(stmt_of(w), loop)]
        updates = [w for w in ws if w not in guarded]
        if updates and (inits or guarded):
            out.add(name)
    return out


def lin(e, env=None):
    """linear form of a scalar expression: {symbol: coefficient}, or None"""
    if isinstance(e, ast.Constant) and isinstance(e.value, int) and not isinstance(e.value, bool):
        return {'1': e.value}
    if isinstance(e, ast.Name):
        if env and e.id in env:
            return env[e.id]
        return {e.id: 1}
    if isinstance(e, ast.Attribute) and dotted(e):
        return {dotted(e): 1}
    if isinstance(e, ast.BinOp) and isinstance(e.op, (ast.Add, ast.Sub)):
        a, b = lin(e.left, env), lin(e.right, env)
        if a is None or b is None:
            return None
        s = 1 if isinstance(e.op, ast.Add) else -1
        out = dict(a)
        for k, v in b.items():
            out[k] = out.get(k, 0) + s * v
        return out
    if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Mult):
        for x, y in ((e.left, e.right), (e.right, e.left)):
            if isinstance(x, ast.Constant) and isinstance(x.value, int):
                a = lin(y, env)
                return None if a is None else {k: v * x.value for k, v in a.items()}
        return {key(e): 1}
    if isinstance(e, ast.Call) and last(dotted(e.func)) == 'min' and len(e.args) == 2:
        for a in e.args:
            l = lin(a, env)
            if l is not None and len([k for k, v in l.items() if v and k != '1']) >= 2:
                return l
        return None
    if isinstance(e, ast.Call) and last(dotted(e.func)) == 'int' and len(e.args) == 1:
        return lin(e.args[0], env)
    if isinstance(e, ast.Subscript) and isinstance(e.value, ast.Attribute) and e.value.attr == 'shape':
        return {key(e): 1}
    return None


def norm(f):
    return {k: v for k, v in (f or {}).items() if v}


def zero_init(e):
    """an expression whose value holds zeros only"""
    if isinstance(e, ast.Call) and last(dotted(e.func)) in ('zeros', 'zeros_like'):
        return True
    if isinstance(e, ast.ListComp):
        return zero_init(e.elt)
    if isinstance(e, ast.List):
        return bool(e.elts) and all(zero_init(x) for x in e.elts)
    if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Mult):
        return zero_init(e.left) or zero_init(e.right)
    return False


def check(prog, rep):
    rep.rule('filter-state', 'a recursive filter applied block by block gets the state it returned for the block before')
    rep.rule('row-mixing', 'an operation across rows of a block is combined with a value carried over from the block before')
    rep.rule('stale-state', 'a state that starts with zeros and is used in every block is updated in every block')
    rep.rule('carried-row', 'what is kept of a block for the computation of the next one is its last row')
    rep.rule('contiguous', 'the rows taken in one iteration begin where those of the iteration before ended')
    gens = Gens(prog)
    for f, c, q in all_funcs(prog):
        fn = f.node
        where = lambda n, f=f, q=q: f'{f.module.rel}:{n.lineno} {q}'
        loops = list(block_loops(gens, fn))
        for loop, names in loops:
            rep.count('block_loops')
            der = derived(loop, names)
            car = carried(loop, fn)
            for n in ast.walk(loop):
                if not isinstance(n, ast.Call) or not inside(n, loop):
                    continue
                name = last(dotted(n.func))
                if name in FILTERS:
                    filter_state(n, name, loop, fn, f, q, rep, where, der)
                elif name in MIXING and any(isinstance(x, ast.Name) and x.id in der for a in n.args for x in ast.walk(a)):
                    if axis_is_channel(n):
                        continue
                    if not asked_by_caller(loop, fn, f):
                        continue
                    rep.count('row_mixing')
                    s = stmt_of(n)
                    used = {x.id for x in ast.walk(s) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load)}
                    targets = {x.id for x in ast.walk(s) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
                    # the result may be combined with the carried value in a later statement
                    later = set()
                    for m in ast.walk(loop):
                        if isinstance(m, ast.stmt) and m is not s and m is not loop and not isinstance(m, (ast.For, ast.While, ast.If, ast.With, ast.Try)):
                            ids = {x.id for x in ast.walk(m) if isinstance(x, ast.Name)}
                            if ids & targets:
                                later |= {x.id for x in ast.walk(m) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load)}
                    if not ((used | later) - names) & ((car & der) - names):
                        rep.viol('row-mixing', f'{f.module.name}:{q}:{name}', f'{ast.unparse(n)[:70]} combines the rows of one block only; the result of {q} depends on where blocks begin', where(n))
            stale(loop, names, fn, f, q, rep, where)
            carried_rows(loop, names, fn, f, q, rep, where, car)
            unfilled(loop, names, fn, f, q, rep, where)
            ramps(loop, fn, f, q, rep, where, car)
        for loop in [n for n in walk_no_nested(fn) if isinstance(n, (ast.While, ast.For))]:
            if f.generator or loop in [x for x, _ in loops]:
                contiguous(loop, fn, f, q, rep, where, [x for x, _ in loops])
    rep.floor('block_loops', 15)
    rep.floor('filter_calls', 1)


ROWWISE = {'cumsum', 'cumprod', 'abs', 'absolute', 'sqrt', 'clip', 'real', 'imag', 'conj', 'conjugate', 'array', 'asarray', 'float64', 'float32', 'sin', 'cos', 'exp', 'log10', 'square',
           'copy', 'astype', 'where', 'maximum', 'minimum', 'multiply', 'add', 'subtract', 'divide', 'ascontiguousarray', 'nan_to_num'}


def row_arrays(loop, names):
    """names of arrays in the loop whose first axis are the rows of the block"""
    out = set(names)

    def rows(e):
        if isinstance(e, ast.Name):
            return e.id in out
        if isinstance(e, ast.BinOp):
            return rows(e.left) or rows(e.right)
        if isinstance(e, ast.UnaryOp):
            return rows(e.operand)
        if isinstance(e, ast.Attribute):
            return e.attr in ('real', 'imag') and rows(e.value)
        if isinstance(e, ast.Subscript):
            i = e.slice.elts[0] if isinstance(e.slice, ast.Tuple) and e.slice.elts else e.slice
            return rows(e.value) and isinstance(i, ast.Slice) and i.lower is None and i.upper is None and i.step is None
        if isinstance(e, ast.Call):
            n = last(dotted(e.func)) or (e.func.attr if isinstance(e.func, ast.Attribute) else None)
            if n not in ROWWISE or axis_is_channel(e):
                return False
            if isinstance(e.func, ast.Attribute) and rows(e.func.value):
                return True
            return bool(e.args) and any(rows(a) for a in e.args)
        return False
    changed = True
    while changed:
        changed = False
        for n in ast.walk(loop):
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and n.targets[0].id not in out and rows(n.value):
                out.add(n.targets[0].id)
                changed = True
    # only names that never hold anything else in the loop
    for n in ast.walk(loop):
        if isinstance(n, ast.Assign):
            for t in n.targets:
                for x in (t.elts if isinstance(t, (ast.Tuple, ast.List)) else [t]):
                    if isinstance(x, ast.Name) and x.id in out and x.id not in names and not (x is t and rows(n.value)):
                        out.discard(x.id)
    return out


def literal_index(e):
    try:
        v = ast.literal_eval(e)
    except (ValueError, SyntaxError):
        return None
    return v if isinstance(v, int) and not isinstance(v, bool) else None


def carried_rows(loop, names, fn, f, q, rep, where, car):
    """what is kept of a block for the next one is its last row"""
    arrays = row_arrays(loop, names)
    for n in ast.walk(loop):
        if not isinstance(n, ast.Assign) or n is loop or len(n.targets) != 1 or not isinstance(n.targets[0], ast.Name) or n.targets[0].id not in car or n.targets[0].id in arrays:
            continue
        if first_only(n, loop):
            continue
        # the name is read before it is assigned anew: in an earlier statement of the loop
        if not any(isinstance(x, ast.Name) and x.id == n.targets[0].id and isinstance(x.ctx, ast.Load) and x.lineno < n.lineno for x in ast.walk(loop)):
            continue
        for x in ast.walk(n.value):
            if not (isinstance(x, ast.Subscript) and isinstance(x.value, ast.Name) and x.value.id in arrays):
                continue
            i = x.slice.elts[0] if isinstance(x.slice, ast.Tuple) and x.slice.elts else x.slice
            rep.count('carried_rows')
            k = literal_index(i)
            asked = {a.id for a in ast.walk(loop.iter) if isinstance(a, ast.Name)} & set(f.params[1:]) if isinstance(loop, ast.For) else set()
            bad = k is not None and k != -1 or any(isinstance(a, ast.Name) and a.id in asked for a in ast.walk(i))     # the last block may be shorter
            if isinstance(i, ast.Slice) and i.step is None:
                bad = i.lower is None and i.upper is not None and (literal_index(i.upper) or -1) > 0
            if bad:
                rep.viol('carried-row', f'{f.module.name}:{q}:{n.targets[0].id}', f'{n.targets[0].id} is carried over to the next block, but {ast.unparse(x)} is not the last row of this one', where(n))


def poly(e, env=None):
    """sum of products of powers of scalar names: {frozenset((atom, power)): coefficient}, or None"""
    if isinstance(e, ast.Constant) and isinstance(e.value, (int, float)) and not isinstance(e.value, bool):
        return {frozenset(): e.value} if e.value else {}
    if isinstance(e, ast.Name) and env and e.id in env:
        return poly(env[e.id], {k: v for k, v in env.items() if k != e.id})
    if dotted(e):
        return {frozenset({(dotted(e), 1)}): 1}
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.USub):
        a = poly(e.operand, env)
        return None if a is None else {k: -v for k, v in a.items()}
    if isinstance(e, ast.Call) and last(dotted(e.func)) in ('float', 'int') and len(e.args) == 1:
        return poly(e.args[0], env)
    if not isinstance(e, ast.BinOp):
        return None
    a, b = poly(e.left, env), poly(e.right, env)
    if a is None or b is None:
        return None
    if isinstance(e.op, (ast.Add, ast.Sub)):
        out = dict(a)
        for k, v in b.items():
            out[k] = out.get(k, 0) + (v if isinstance(e.op, ast.Add) else -v)
        return {k: v for k, v in out.items() if v}
    if isinstance(e.op, ast.Div):
        if len(b) != 1:
            return None
        (k, v), = b.items()
        b = {frozenset((n, -q) for n, q in k): 1 / v}
    elif not isinstance(e.op, ast.Mult):
        return None
    out = {}
    for k1, v1 in a.items():
        for k2, v2 in b.items():
            d = dict(k1)
            for n, q in k2:
                d[n] = d.get(n, 0) + q
            k = frozenset((n, q) for n, q in d.items() if q)
            out[k] = out.get(k, 0) + v1 * v2
    return {k: v for k, v in out.items() if v}


def ramps(loop, fn, f, q, rep, where, car):
    """a = off + linspace(0, n * step, n, endpoint=False) in every block: the next offset is one step after the last value"""
    count = {}
    for n in walk_no_nested(fn):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            count[n.id] = count.get(n.id, 0) + 1
    env = {n.targets[0].id: n.value for n in walk_no_nested(fn) if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and count[n.targets[0].id] == 1
           and not isinstance(n.value, (ast.Subscript, ast.Call))}
    for n in ast.walk(loop):
        if not (isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and isinstance(n.value, ast.BinOp) and isinstance(n.value.op, ast.Add)):
            continue
        ramp = n.targets[0].id
        for off, r in ((n.value.left, n.value.right), (n.value.right, n.value.left)):
            if not (isinstance(off, ast.Name) and off.id in car and isinstance(r, ast.Call) and last(dotted(r.func)) == 'linspace' and len(r.args) == 3):
                continue
            if not any(k.arg == 'endpoint' and isinstance(k.value, ast.Constant) and k.value.value is False for k in r.keywords) or not (isinstance(r.args[0], ast.Constant) and r.args[0].value == 0):
                continue
            stop, rows = poly(r.args[1], env), poly(r.args[2], env)
            for m in ast.walk(loop):
                if not (isinstance(m, ast.Assign) and any(isinstance(t, ast.Name) and t.id == off.id for t in m.targets)):
                    continue
                ends = [x for x in ast.walk(m.value) if isinstance(x, ast.Subscript) and isinstance(x.value, ast.Name) and x.value.id == ramp and literal_index(x.slice) == -1]
                if len(ends) != 1 or stop is None or rows is None:
                    continue
                v = m.value
                step = {} if v is ends[0] else None
                if isinstance(v, ast.BinOp) and isinstance(v.op, ast.Add) and ends[0] in (v.left, v.right):
                    step = poly(v.right if v.left is ends[0] else v.left, env)
                if step is None or len(rows) != 1:
                    continue
                rep.count('ramps')
                (k, c), = rows.items()
                if {(frozenset((a, p) for a, p in merge(k2, k)), round(v2 * c, 9)) for k2, v2 in step.items()} != {(k2, round(v2, 9)) for k2, v2 in stop.items()}:
                    rep.viol('carried-row', f'{f.module.name}:{q}:{off.id}:step', f'the next block begins with {ast.unparse(v)}, which is not one step of {ast.unparse(r)[:60]} after the last value of this block', where(m))


def merge(a, b):
    d = dict(a)
    for n, q in b:
        d[n] = d.get(n, 0) + q
    return [(n, q) for n, q in d.items() if q]


def unfilled(loop, names, fn, f, q, rep, where):
    """a list that starts empty and takes part in every block is filled"""
    for n in walk_no_nested(fn):
        if not (isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and isinstance(n.value, ast.List) and not n.value.elts and not inside(n, loop)):
            continue
        name = n.targets[0].id
        if len(stores(fn, name)) != 1 or not any(isinstance(x, ast.Name) and x.id == name and isinstance(x.ctx, ast.Load) for x in ast.walk(loop)):
            continue
        uses = [x for x in ast.walk(loop) if isinstance(x, ast.Call) and any(isinstance(a, ast.Name) and a.id == name for a in x.args) and any(isinstance(a, ast.Name) and a.id in names for a in x.args)]
        if uses:
            rep.viol('carried-row', f'{f.module.name}:{q}:{name}:never', f'{name} starts empty and is never set to anything of the block before', where(uses[0]))


def axis_is_channel(call):
    for k in call.keywords:
        if k.arg == 'axis':
            try:
                v = ast.literal_eval(k.value)
            except ValueError:
                return True
            return v not in (0, -2, None)
    return False


def asked_by_caller(loop, fn, f):
    """the blocks have the size the caller asks for (and not one of the object's own)"""
    it = loop.iter if isinstance(loop, ast.For) else None
    if it is None:
        return True
    calls = [n for n in ast.walk(it) if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'result']
    if not calls:
        return False
    c = calls[0]
    if not c.args and not c.keywords:
        return True
    e = c.args[0] if c.args else c.keywords[0].value
    params = {a.arg for a in fn.args.args[1:]}
    return isinstance(e, ast.Name) and e.id in params


def filter_state(n, name, loop, fn, f, q, rep, where, der):
    rep.count('filter_calls')
    zi = next((k.value for k in n.keywords if k.arg == 'zi'), None)
    pos = {'sosfilt': 3, 'lfilter': 4}[name]
    if zi is None and len(n.args) > pos:
        zi = n.args[pos]
    k0 = f'{f.module.name}:{q}:{name}'
    if zi is None or (isinstance(zi, ast.Constant) and zi.value is None):
        data = n.args[pos - 2] if len(n.args) > pos - 2 else None
        if data is None or any(isinstance(x, ast.Name) and x.id in der for x in ast.walk(data)):
            rep.viol('filter-state', k0 + ':none', f'{ast.unparse(n)[:70]} starts anew in every block', where(n))
        return
    src = key(zi)
    nm = base(zi)
    if nm is None:
        # computed in place: a fresh state for every block
        rep.viol('filter-state', k0 + ':fresh', f'the state {src} of the filter is computed anew for every block', where(n))
        return
    p = getattr(n, '_parent', None)
    while p is not None and p is not loop:
        if isinstance(p, (ast.For, ast.comprehension)) or isinstance(p, (ast.ListComp, ast.GeneratorExp)):
            its = p.generators if isinstance(p, (ast.ListComp, ast.GeneratorExp)) else [p]
            own = {x.id for g in its for x in ast.walk(g.target) if isinstance(x, ast.Name)}
            own |= {x.id for x in ast.walk(p) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} - {nm}
            uses = lambda e: any(isinstance(x, ast.Name) and x.id in own for x in ast.walk(e))
            if n.args and uses(n.args[0]) and not uses(zi):
                rep.viol('filter-state', k0 + ':shared', f'{ast.unparse(n)[:70]}: several filters start from the same state {src}', where(n))
                return
        p = getattr(p, '_parent', None)
    s = stmt_of(n)
    tgt = None
    if isinstance(s, ast.Assign) and s.value is n and len(s.targets) == 1 and isinstance(s.targets[0], (ast.Tuple, ast.List)) and len(s.targets[0].elts) == 2:
        tgt = s.targets[0].elts[1]
    elif isinstance(s, ast.Assign) and s.value is n and isinstance(s.targets[0], ast.Name):
        # result kept as a pair and taken apart afterwards
        pair = s.targets[0].id
        for m in ast.walk(loop):
            if isinstance(m, ast.Assign) and any(isinstance(x, ast.Subscript) and dotted(x.value) == pair for x in ast.walk(m.value)) and base(m.targets[0]) == nm:
                tgt = m.targets[0]
            if isinstance(m, ast.Assign) and isinstance(m.value, ast.Name) and m.value.id == pair and isinstance(m.targets[0], ast.Tuple) and len(m.targets[0].elts) == 2:
                tgt = m.targets[0].elts[1]
    if tgt is not None and key(tgt) != src:
        # a temporary that is copied to the state afterwards
        for m in ast.walk(loop):
            if isinstance(m, ast.Assign) and len(m.targets) == 1 and key(m.targets[0]) == src and any(key(x) == key(tgt) for x in ast.walk(m.value) if isinstance(x, (ast.Name, ast.Subscript, ast.Attribute))):
                tgt = m.targets[0]
                break
    if tgt is None or key(tgt) != src:
        if tgt is not None and base(tgt) == nm:
            rep.viol('filter-state', k0 + ':other', f'the filter starts from {src} but its final state goes to {key(tgt)}', where(n))
            return
        if isinstance(getattr(n, '_parent', None), ast.Return) or (tgt is None and not isinstance(s, (ast.Assign, ast.Expr))):
            return
        rep.viol('filter-state', k0 + ':dropped', f'the final state of the filter does not become {src}, the state the next block starts from', where(n))
        return
    for st, t in stores(loop, nm):
        if st is s or t is tgt or not inside(st, loop) or first_only(st, loop):
            continue
        if any(key(x) == key(s.targets[0].elts[1]) for x in ast.walk(st.value) if isinstance(x, ast.expr)) if isinstance(st, ast.Assign) and isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Tuple) else False:
            continue
        rep.viol('filter-state', k0 + ':reset', f'the state {nm} of the filter is set again in every block', where(st))
    if not any(not inside(st, loop) for st, t in stores(fn, nm)) and not any(first_only(st, loop) for st, t in stores(loop, nm) if st is not s) and '.' not in nm:
        rep.viol('filter-state', k0 + ':init', f'the state {nm} of the filter is not set before the first block', where(n))


def stale(loop, names, fn, f, q, rep, where):
    for n in walk_no_nested(fn):
        if not isinstance(n, ast.Assign) or len(n.targets) != 1 or not isinstance(n.targets[0], ast.Name) or not zero_init(n.value):
            continue
        nm = n.targets[0].id
        if inside(n, loop) and not first_only(n, loop):
            continue
        if not inside(n, loop) and n.lineno > loop.lineno:
            continue
        reads = [x for x in ast.walk(loop) if isinstance(x, ast.Name) and x.id == nm and isinstance(x.ctx, ast.Load) and inside(x, loop)]
        if not reads:
            continue
        rep.count('zero_states')
        writes = [s for s, t in stores(loop, nm) if inside(s, loop) and s is not n]
        calls = [s for s in passed(loop, nm) if inside(s, loop) and last(dotted(s.func)) not in MIXING | set(FILTERS) | {'dot', 'sum', 'concatenate', 'array', 'len', 'vstack', 'hstack'}]
        if not writes and not calls and not escapes(fn, nm, n):
            rep.viol('stale-state', f'{f.module.name}:{q}:{nm}', f'{nm} starts with zeros and enters the result of every block, but nothing in the loop ever updates it', where(n))


def escapes(fn, nm, init):
    """another name or object refers to the array"""
    for m in walk_no_nested(fn):
        if isinstance(m, ast.Assign) and m is not init and isinstance(m.value, ast.Name) and m.value.id == nm:
            return True
        if isinstance(m, ast.Assign) and m is not init and isinstance(m.value, (ast.Subscript, ast.Attribute)) and base(m.value) == nm:
            return True
        if isinstance(m, ast.Call) and any(isinstance(a, ast.Name) and a.id == nm for a in m.args) and m is not init.value and not zero_init(m):
            if last(dotted(m.func)) not in MIXING | set(FILTERS) | {'dot', 'sum', 'concatenate', 'array', 'len'}:
                return True
    return False


def contiguous(loop, fn, f, q, rep, where, blocks):
    """slices [a:b] with a a counter: after one iteration a must be b"""
    params = {a.arg for a in fn.args.args}
    # counters: names changed in the loop body by += / -= only
    counters = {}
    bad = set()
    body = [n for s in loop.body for n in ast.walk(s)]
    for n in body:
        if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name):
            if isinstance(n.op, (ast.Add, ast.Sub)) and n in loop.body:
                counters.setdefault(n.target.id, []).append(n)
            else:
                bad.add(n.target.id)
        elif isinstance(n, ast.Assign):
            for t in n.targets:
                for x in ast.walk(t):
                    if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                        if n in loop.body and len(n.targets) == 1 and isinstance(t, ast.Name) and lin(n.value) is not None and x.id in lin(n.value):
                            counters.setdefault(x.id, []).append(n)
                        else:
                            bad.add(x.id)
    if isinstance(loop, ast.For):
        for x in ast.walk(loop.target):
            if isinstance(x, ast.Name):
                bad.add(x.id)
    # names that hold the length of the current block: the same as num in all but the last block
    same = block_len_names(loop, fn, params)
    sls = []
    for n in body:
        if isinstance(n, ast.Subscript):
            s = n.slice.elts[0] if isinstance(n.slice, ast.Tuple) and n.slice.elts else n.slice
            if isinstance(s, ast.Slice) and s.lower is not None and s.upper is not None and s.step is None:
                sls.append((n, s))
    for n, s in sls:
        a, b = lin(s.lower), lin(s.upper)
        if a is None or b is None:
            continue
        used = {k for k, v in a.items() if v} & set(x for x in counters)
        wide = norm({k: b.get(k, 0) - a.get(k, 0) for k in set(a) | set(b)})
        if any(k in bad and k not in same for k in list(norm(a)) + list(wide)):
            continue
        if not wide or (set(wide) == {'1'}):
            continue
        if not any(k in params or k in same for k in wide):
            continue
        in_nested = n_in_inner_loop(n, loop)
        if in_nested:
            continue
        if not used:
            # lower bound does not change at all
            names = {k for k in norm(a) if k != '1'}
            if names and not names & (set(bad) | params | set(same)) and names <= initialised(fn, loop):
                rep.count('slices')
                rep.viol('contiguous', f'{f.module.name}:{q}:{ast.unparse(n.slice)[:40]}', f'{ast.unparse(n)[:60]} takes the same rows in every iteration', where(n))
            continue
        # position of the slice relative to the increments
        env = {}
        for k in used:
            env[k] = {k: 1}
        before, after = dict(env), dict(env)
        ok = True
        stmt = n
        while getattr(stmt, '_parent', None) is not loop:
            stmt = stmt._parent
            if stmt is None:
                ok = False
                break
        if not ok or stmt not in loop.body:
            continue
        idx = loop.body.index(stmt)
        env = {}
        snap = None
        for i, st in enumerate(loop.body):
            if i == idx:
                snap = dict(env)
            for k in used:
                for u in counters[k]:
                    if u is st:
                        if isinstance(u, ast.AugAssign):
                            d = lin(u.value)
                            if d is None:
                                ok = False
                                break
                            cur = env.get(k, {k: 1})
                            sg = 1 if isinstance(u.op, ast.Add) else -1
                            env[k] = {x: cur.get(x, 0) + sg * d.get(x, 0) for x in set(cur) | set(d)}
                        else:
                            env[k] = lin(u.value, env)
        if not ok:
            continue

        def sub(form, e):
            out = {}
            for k, v in form.items():
                r = e.get(k, {k: 1})
                for x, y in r.items():
                    x = same.get(x, x)
                    out[x] = out.get(x, 0) + v * y
            return norm(out)
        snap = snap or {}
        upper = sub(b, snap)
        # state after the whole iteration, then up to the slice again
        nxt = {}
        for k in used:
            nxt[k] = env.get(k, {k: 1})
        pre = {k: snap.get(k, {k: 1}) for k in used}
        lower2 = sub({k: v for k, v in a.items()}, {k: compose(pre[k], nxt) for k in used})
        rep.count('slices')
        if lower2 != upper and not any(x in bad and x not in same.values() for x in list(lower2) + list(upper)):
            diffk = norm({k: lower2.get(k, 0) - upper.get(k, 0) for k in set(lower2) | set(upper)})
            if all(k == '1' or k in params or k in set(same.values()) for k in diffk):
                rep.viol('contiguous', f'{f.module.name}:{q}:{ast.unparse(n.slice)[:40]}', f'{ast.unparse(n)[:60]} does not begin where the slice of the iteration before ended', where(n))


def compose(form, env):
    out = {}
    for k, v in form.items():
        for x, y in env.get(k, {k: 1}).items():
            out[x] = out.get(x, 0) + v * y
    return out


def n_in_inner_loop(n, loop):
    cur = n
    while cur is not loop and cur is not None:
        p = getattr(cur, '_parent', None)
        if isinstance(p, (ast.For, ast.While, ast.ListComp, ast.GeneratorExp)) and p is not loop:
            return True
        cur = p
    return False


def initialised(fn, loop):
    out = set()
    for n in walk_no_nested(fn):
        if isinstance(n, ast.Assign) and n.lineno < loop.lineno and isinstance(n.value, ast.Constant):
            out |= {t.id for t in n.targets if isinstance(t, ast.Name)}
    return out


def block_len_names(loop, fn, params):
    """local name of the number of rows of the block -> name of the number asked for"""
    out = {}
    num = next((a.arg for a in fn.args.args[1:2]), None)
    if num is None:
        return out
    for n in ast.walk(loop):
        if isinstance(n, ast.Assign) and len(n.targets) == 1:
            t, v = n.targets[0], n.value
            if isinstance(v, ast.Attribute) and v.attr == 'shape' and isinstance(t, ast.Tuple) and isinstance(t.elts[0], ast.Name):
                out[t.elts[0].id] = num
            elif isinstance(v, ast.Subscript) and isinstance(v.value, ast.Attribute) and v.value.attr == 'shape' and isinstance(t, ast.Name) and isinstance(v.slice, ast.Constant) and v.slice.value == 0:
                out[t.id] = num
            elif isinstance(v, ast.Call) and last(dotted(v.func)) == 'len' and isinstance(t, ast.Name):
                out[t.id] = num
        if isinstance(n, ast.Subscript) and isinstance(n.value, ast.Attribute) and n.value.attr == 'shape' and isinstance(n.slice, ast.Constant) and n.slice.value == 0:
            out[key(n)] = num
    return out
