"""P06: the rows of a stream are counted correctly: none lost, none twice, no block of the wrong length."""

import ast

from .model import dotted, walk_no_nested
from .p07 import Gens, inside, last
from .p24 import all_funcs

ALLOC = {'zeros', 'empty', 'ones', 'full', 'zeros_like', 'empty_like', 'ones_like'}
ELEM_METH = {'clip', 'conj', 'conjugate', 'astype', 'copy'}
ELEM_FUN = {'sqrt', 'abs', 'absolute', 'fabs', 'square', 'real', 'imag', 'conj', 'conjugate', 'log10', 'log', 'exp', 'where', 'clip', 'maximum', 'minimum', 'ascontiguousarray',
            'asarray', 'array', 'multiply', 'add', 'subtract', 'divide', 'nan_to_num', 'float32', 'float64'}
MAXP = 400


class Skip(Exception):
    pass


def norm(d):
    return {k: v for k, v in d.items() if v}


def add(a, b, s=1):
    out = dict(a)
    for k, v in b.items():
        out[k] = out.get(k, 0) + s * v
    return norm(out)


def sure(a, b):
    """both numbers of rows are known, and one is that of a block"""
    ks = list(a) + list(b)
    return any('#' in k for k in ks) and not any('len ' in k or k.startswith('array ') or '~' in k and '#' not in k for k in ks)


def show(d):
    if not d:
        return '0'
    out = ''
    for k, v in sorted(d.items(), key=lambda kv: (kv[1] < 0, kv[0])):
        t = str(abs(v)) if k == '1' else k if abs(v) == 1 else f'{abs(v)}*{k}'
        out += (' - ' if v < 0 else ' + ' if out else '') + t
    return out.strip()


class St:
    def __init__(self):
        self.env = {}       # scalar name -> linear form
        self.rows = {}      # array name -> linear form of its number of rows
        self.facts = []     # (form, op): form op 0
        self.held = {}      # buffer -> rows filled and not yet delivered
        self.shift = {}     # buffer -> rows that must be moved down
        self.last = {}      # buffer -> extent of the last store
        self.flags = {}     # flag name -> truth on this path / value assigned
        self.stored = set()
        self.given = set()
        self.out = []       # forms of the rows handed out
        self.end = None

    def copy(self):
        s = St()
        s.env, s.rows, s.facts = dict(self.env), dict(self.rows), list(self.facts)
        s.held, s.shift, s.last = dict(self.held), dict(self.shift), dict(self.last)
        s.flags, s.stored, s.given, s.out, s.end = dict(self.flags), set(self.stored), set(self.given), list(self.out), self.end
        return s

    def zero(self, d):
        """is the form known to be 0"""
        d = norm(d)
        if not d:
            return True
        for f, op in self.facts:
            if op in ('==', '>=', '<=') and f:
                for s in (1, -1):
                    if not add(d, f, s):
                        return op == '=='
        return False

    def le(self, a, b):
        """a <= b known"""
        d = add(b, a, -1)
        if len(a) == 1 and list(a.values()) == [1] and list(a)[0].startswith('min(') and show(b) in list(a)[0][4:-1].split(', '):
            return True
        if not d or (set(d) == {'1'} and d['1'] >= 0):
            return True
        for f, op in self.facts:
            if op in ('>=', '>', '==') and not add(d, f, -1):
                return True
            if op in ('<=', '<', '==') and not add(d, f, 1):
                return True
        return False

    def positive(self, d):
        d = norm(d)
        if set(d) == {'1'}:
            return d['1'] > 0
        for f, op in self.facts:
            r = add(d, f, -1)
            if op == '>' and (not r or set(r) == {'1'} and r['1'] >= 0):
                return True
            if op == '>=' and set(r) == {'1'} and r['1'] >= 1:
                return True
            r = add(d, f, 1)
            if op == '<=' and set(r) == {'1'} and r['1'] >= 1:
                return True
            if op == '<' and (not r or set(r) == {'1'} and r['1'] >= 0):
                return True
            if op == '!=' and (not r or not add(d, f, -1)):
                return True
        return False


NEG = {'==': '!=', '!=': '==', '>': '<=', '>=': '<', '<': '>=', '<=': '>'}
OPS = {ast.Eq: '==', ast.NotEq: '!=', ast.Gt: '>', ast.GtE: '>=', ast.Lt: '<', ast.LtE: '<='}


class Exec:
    """path-wise interpretation of the row counts in a generator body (contents of arrays are dropped)"""

    def __init__(self, prog, gens, fn, f, q, rep, where):
        self.prog, self.gens, self.fn, self.f, self.q, self.rep, self.where = prog, gens, fn, f, q, rep, where
        self.params = [a.arg for a in fn.args.args]
        self.bufs = {}
        self.managed = set()
        self.fresh = 0
        self.loc = gens.local(fn)
        self.init = {}
        self.pending = []
        self.mods = {}
        self.found = []
        self.scan = False

    def viol(self, rule, n, msg):
        self.found.append((rule, f'{self.f.module.name}:{self.q}:{rule}', msg, self.where(n)))

    # ------------------------------------------------------------ scalars
    def ev(self, e, st):
        if isinstance(e, ast.Constant) and isinstance(e.value, int) and not isinstance(e.value, bool):
            return norm({'1': e.value})
        if isinstance(e, ast.Name):
            return st.env.get(e.id, {e.id: 1})
        if isinstance(e, ast.Attribute):
            d = dotted(e)
            return {d: 1} if d else None
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.USub):
            a = self.ev(e.operand, st)
            return None if a is None else {k: -v for k, v in a.items()}
        if isinstance(e, ast.BinOp):
            a, b = self.ev(e.left, st), self.ev(e.right, st)
            if a is None or b is None:
                return None
            if isinstance(e.op, ast.Add):
                return add(a, b)
            if isinstance(e.op, ast.Sub):
                return add(a, b, -1)
            if isinstance(e.op, ast.Mult):
                for x, y in ((a, b), (b, a)):
                    if set(x) <= {'1'}:
                        return norm({k: v * x.get('1', 0) for k, v in y.items()})
            op = {ast.Mult: '*', ast.FloorDiv: '//', ast.Mod: '%', ast.Div: '/'}.get(type(e.op))
            if op is None:
                return None
            if op in ('*',):
                sides = sorted([show(a), show(b)])
                return {f'({sides[0]}*{sides[1]})': 1}
            return {f'({show(a)}{op}{show(b)})': 1}
        if isinstance(e, ast.Call):
            d = last(dotted(e.func))
            if d == 'int' and len(e.args) == 1:
                a = self.ev(e.args[0], st)
                if a is not None and len(a) == 1:
                    (k, v), = a.items()
                    if v == 1 and '/' in k and '//' not in k and k.startswith('(') and not k.startswith('(ceil'):
                        return {k.replace('/', '//', 1): 1}
                return a
            if d in ('ceil', 'floor', 'rint') and len(e.args) == 1:
                a = self.ev(e.args[0], st)
                return None if a is None else {f'({d} {show(a)})': 1}
            if d in ('min', 'max') and len(e.args) == 2 and not e.keywords:
                a, b = self.ev(e.args[0], st), self.ev(e.args[1], st)
                if a is None or b is None:
                    return None
                if d == 'min':
                    if st.le(a, b):
                        return a
                    if st.le(b, a):
                        return b
                x = sorted([show(a), show(b)])
                return {f'{d}({x[0]}, {x[1]})': 1}
            if d == 'len' and len(e.args) == 1:
                return self.rows(e.args[0], st) or {f'len {ast.unparse(e.args[0])}': 1}
            return None
        if isinstance(e, ast.Subscript) and isinstance(e.value, ast.Attribute) and e.value.attr == 'shape' and isinstance(e.slice, ast.Constant):
            if e.slice.value == 0:
                return self.rows(e.value.value, st) or {f'len {ast.unparse(e.value.value)}': 1}
            return {ast.unparse(e): 1}
        if isinstance(e, ast.BoolOp):
            return {f'({ast.unparse(e)})': 1}
        if isinstance(e, ast.IfExp):
            t = e.test
            a, b = self.ev(e.body, st), self.ev(e.orelse, st)
            if a is not None and a == b:
                return a
            if isinstance(t, ast.Compare) and len(t.ops) == 1 and a is not None and b is not None:
                l, r, o = self.ev(t.left, st), self.ev(t.comparators[0], st), OPS.get(type(t.ops[0]))
                if l is not None and r is not None and o in ('<', '<=', '>', '>='):
                    d = add(l, r, -1)
                    if o in ('>', '>='):
                        d = {k: -v for k, v in d.items()}
                    x = sorted([show(a), show(b)])
                    if d == add(a, b, -1):
                        return {f'min({x[0]}, {x[1]})': 1}
                    if d == add(b, a, -1):
                        return {f'max({x[0]}, {x[1]})': 1}
            return None
        return None

    # ------------------------------------------------------------ arrays
    def alloc(self, e, st):
        if not (isinstance(e, ast.Call) and last(dotted(e.func)) in ALLOC and e.args):
            return None
        if last(dotted(e.func)).endswith('_like'):
            return self.rows(e.args[0], st) or {f'len {ast.unparse(e.args[0])}': 1}
        a = e.args[0]
        if isinstance(a, (ast.Tuple, ast.List)) and a.elts:
            return self.ev(a.elts[0], st)
        return self.ev(a, st)

    def first_index(self, e):
        s = e.slice
        return s.elts[0] if isinstance(s, ast.Tuple) and s.elts else s

    def rows(self, e, st, report=True):
        if isinstance(e, ast.Name):
            return st.rows.get(e.id, self.bufs.get(e.id))
        if isinstance(e, ast.Attribute):
            return self.rows(e.value, st) if e.attr in ('real', 'imag') else None
        if isinstance(e, ast.UnaryOp):
            return self.rows(e.operand, st)
        if isinstance(e, ast.Starred):
            return None
        if isinstance(e, ast.BinOp) or isinstance(e, ast.Compare):
            l, r = (e.left, e.right) if isinstance(e, ast.BinOp) else (e.left, e.comparators[0])
            if isinstance(e, ast.BinOp) and isinstance(e.op, ast.MatMult):
                return self.rows(l, st)
            return self.match(e, self.rows(l, st), self.rows(r, st), st)
        if isinstance(e, ast.Call):
            if isinstance(e.func, ast.Name) and e.func.id == 'next' and e.args:
                return {f'#{ast.unparse(e.args[0])}@next': 1} if self.gens.is_gen(e.args[0], self.loc) or isinstance(e.args[0], ast.Name) else None
            d = e.func.attr if isinstance(e.func, ast.Attribute) else last(dotted(e.func))
            if isinstance(e.func, ast.Attribute) and d in ELEM_METH and not isinstance(e.func.value, ast.Name) or isinstance(e.func, ast.Attribute) and d in ELEM_METH and e.func.value.id in st.rows:
                return self.rows(e.func.value, st)
            if isinstance(e.func, ast.Attribute) and d == 'reshape' and e.args and dotted(e.func.value) not in ('np', 'numpy'):
                a = e.args[0]
                a = a.elts[0] if isinstance(a, (ast.Tuple, ast.List)) and a.elts else a
                v = self.ev(a, st)
                return None if v is None or self.neg(v) else v
            if isinstance(e.func, ast.Attribute) and d in ('mean', 'sum', 'max', 'min', 'std', 'var', 'prod'):
                ax = [k.value for k in e.keywords if k.arg == 'axis'] + [a for a in e.args[:1] if isinstance(a, ast.Constant)]
                if ax and isinstance(ax[0], ast.Constant) and isinstance(ax[0].value, int) and ax[0].value > 0:
                    return self.rows(e.func.value, st)
                return None
            if d in ELEM_FUN and e.args:
                out = None
                for a in e.args:
                    out = self.match(e, out, self.rows(a, st), st)
                return out
            if d in ('cumsum', 'cumprod') and e.args and any(k.arg == 'axis' and isinstance(k.value, ast.Constant) and k.value.value == 0 for k in e.keywords):
                return self.rows(e.args[0], st)
            if d in ('sosfilt', 'lfilter') and any(k.arg == 'axis' and isinstance(k.value, ast.Constant) and k.value.value == 0 for k in e.keywords) and len(e.args) > 1:
                return self.rows(e.args[1 if d == 'sosfilt' else 2], st) if len(e.args) > (1 if d == 'sosfilt' else 2) else None
            if d == 'arange' and len(e.args) == 1:
                return self.ev(e.args[0], st)
            if d in ALLOC:
                return self.alloc(e, st)
            return None
        if isinstance(e, ast.Subscript):
            i = self.first_index(e)
            r = self.rows(e.value, st)
            if isinstance(i, ast.Slice) and i.step is None:
                return self.cut(i, r, st)
            return None
        return None

    def cut(self, i, r, st):
        lo = {} if i.lower is None else self.ev(i.lower, st)
        if i.upper is None:
            if lo == {}:
                return r
            return None if r is None or lo is None or self.neg(lo) else add(r, lo, -1)
        hi = self.ev(i.upper, st)
        if lo is None or hi is None or self.neg(lo) or self.neg(hi):
            return None
        k = add(hi, lo, -1)
        if r is None:
            return k if lo else None
        if lo:
            return k
        if st.le(k, r):
            return k
        if st.le(r, k):
            return r
        x = sorted([show(k), show(r)])
        return {f'min({x[0]}, {x[1]})': 1}

    def neg(self, f):
        return bool(f) and all(v < 0 for v in f.values())

    def match(self, node, a, b, st):
        if a is None:
            return b
        if b is None:
            return a
        if a == {'1': 1}:
            return b
        if b == {'1': 1} or st.zero(add(a, b, -1)):
            return a
        if sure(a, b):
            self.viol('rows', node, f'{ast.unparse(node)[:70]} combines {show(a)} rows with {show(b)} rows')
        return a

    # ------------------------------------------------------------ statements
    def cond(self, t, truth, st):
        """assume the test; False if it is impossible"""
        if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            return self.cond(t.operand, not truth, st)
        if isinstance(t, ast.BoolOp):
            conj = isinstance(t.op, ast.And) == truth
            if conj:
                return all(self.cond(v, truth, st) for v in t.values)
            return True
        if isinstance(t, ast.Constant):
            return bool(t.value) == truth
        if isinstance(t, ast.Name):
            if t.id in st.flags and st.flags[t.id] is not None:
                return st.flags[t.id] == truth
            if t.id in self.boolflags:
                st.flags[t.id] = truth
                st.flags['?' + t.id] = truth
                if self.init.get(t.id) is truth:
                    # nothing was stored so far: the counters have their first values
                    for b in self.managed:
                        for k in list(self.H.get(b) or {}):
                            v = self.init.get(k)
                            if k not in st.env and isinstance(v, int) and not isinstance(v, bool):
                                st.env[k] = norm({'1': v})
                                if st.held.get(b) == {k: 1}:
                                    st.held[b] = norm({'1': v})
                return True
            f = st.env.get(t.id, {t.id: 1})
            st.facts.append((f, '!=' if truth else '=='))
            return True
        if isinstance(t, ast.Compare):
            left = t.left
            parts = []
            for op, r in zip(t.ops, t.comparators):
                parts.append((left, op, r))
                left = r
            if not truth and len(parts) > 1:
                return True
            for l, op, r in parts:
                o = OPS.get(type(op))
                a, b = self.ev(l, st), self.ev(r, st)
                if o is None or a is None or b is None:
                    continue
                o = o if truth else NEG[o]
                d = add(a, b, -1)
                if set(d) <= {'1'}:
                    v = d.get('1', 0)
                    if not {'==': v == 0, '!=': v != 0, '>': v > 0, '>=': v >= 0, '<': v < 0, '<=': v <= 0}[o]:
                        return False
                    continue
                st.facts.append((d, o))
            return True
        return True

    def havoc(self, names, st):
        for n in names:
            self.fresh += 1
            st.env[n] = {f'{n}~{self.fresh}': 1}
            if n in st.rows:
                if st.rows[n] and any('#' in k for k in st.rows[n]):
                    st.rows[n] = {f'#{n}~{self.fresh}': 1}
                else:
                    st.rows.pop(n)

    def assigned(self, stmts):
        out = set()
        for s in stmts:
            for n in ast.walk(s):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                    out.add(n.id)
                elif isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name):
                    out.add(n.target.id)
        return out

    def block(self, stmts, st):
        """-> list of states"""
        sts = [st]
        for s in stmts:
            nxt = []
            for x in sts:
                if x.end:
                    nxt.append(x)
                else:
                    nxt += self.stmt(s, x)
            sts = nxt
            if len(sts) > MAXP:
                raise Skip
        return sts

    def stmt(self, s, st):
        if isinstance(s, ast.If):
            self.effects(s.test, st)
            out = []
            a = st.copy()
            if self.cond(s.test, True, a):
                out += self.block(s.body, a)
            b = st.copy()
            if self.cond(s.test, False, b):
                out += self.block(s.orelse, b)
            return out
        if isinstance(s, ast.Try):
            start = st.copy()
            out = []
            for x in self.block(s.body, st):
                out += [x] if x.end else self.block(s.orelse, x)
            for h in s.handlers:
                out += self.block(h.body, start.copy())
            if s.finalbody:
                res = []
                for x in out:
                    e, x.end = x.end, None
                    for y in self.block(s.finalbody, x):
                        y.end = y.end or e
                        res.append(y)
                out = res
            return out
        if isinstance(s, (ast.With, ast.AsyncWith)):
            return self.block(s.body, st)
        if isinstance(s, (ast.For, ast.AsyncFor, ast.While)):
            return self.inner(s, st)
        if isinstance(s, ast.Return):
            st.end = 'return'
            return [st]
        if isinstance(s, ast.Raise):
            st.end = 'raise'
            return [st]
        if isinstance(s, ast.Break):
            st.end = 'break'
            return [st]
        if isinstance(s, ast.Continue):
            st.end = 'continue'
            return [st]
        if isinstance(s, ast.Assign):
            self.effects(s.value, st)
            for t in s.targets:
                self.assign(t, s.value, s, st)
            return [st]
        if isinstance(s, ast.AnnAssign) and s.value is not None:
            self.effects(s.value, st)
            self.assign(s.target, s.value, s, st)
            return [st]
        if isinstance(s, ast.AugAssign):
            self.effects(s.value, st)
            t = s.target
            if isinstance(t, ast.Name):
                if t.id in st.rows:
                    st.rows[t.id] = self.match(s, st.rows[t.id], self.rows(s.value, st), st)
                    return [st]
                v = self.ev(s.value, st)
                cur = st.env.get(t.id, {t.id: 1})
                if v is not None and isinstance(s.op, (ast.Add, ast.Sub)):
                    st.env[t.id] = add(cur, v, 1 if isinstance(s.op, ast.Add) else -1)
                else:
                    self.havoc([t.id], st)
            elif isinstance(t, ast.Subscript):
                self.store(t, s.value, s, st, aug=True)
            return [st]
        if isinstance(s, ast.Expr):
            self.effects(s.value, st)
            return [st]
        return [st]

    def assign(self, t, v, s, st):
        if isinstance(t, ast.Name):
            r = self.rows(v, st)
            val = self.ev(v, st)
            st.env.pop(t.id, None)
            al = self.alloc(v, st)
            if t.id in self.managed and al is not None:
                st.rows.pop(t.id, None)
                st.env[t.id] = {f'array {t.id}': 1}
                if t.id in st.held and st.held[t.id]:
                    self.viol('held', s, f'{t.id} is replaced while it holds {show(st.held[t.id])} rows that were not delivered')
                st.held[t.id] = {}
                return
            if isinstance(v, ast.Constant) and isinstance(v.value, bool):
                st.flags[t.id] = v.value
                return
            st.flags.pop(t.id, None)
            if r is not None:
                if any(k.endswith('@next') for k in r):
                    self.fresh += 1
                    r = {f'#{t.id}': 1}
                st.rows[t.id] = r
                return
            st.rows.pop(t.id, None)
            if val is None:
                self.fresh += 1
                val = {f'{t.id}~{self.fresh}': 1}
            st.env[t.id] = val
        elif isinstance(t, (ast.Tuple, ast.List)):
            if isinstance(v, ast.Attribute) and v.attr == 'shape' and t.elts and isinstance(t.elts[0], ast.Name):
                st.env[t.elts[0].id] = self.rows(v.value, st) or {f'len {ast.unparse(v.value)}': 1}
                self.havoc([x.id for x in t.elts[1:] if isinstance(x, ast.Name)], st)
                return
            if isinstance(v, (ast.Tuple, ast.List)) and len(v.elts) == len(t.elts):
                for a, b in zip(t.elts, v.elts):
                    self.assign(a, b, s, st)
                return
            filt = isinstance(v, ast.Call) and last(dotted(v.func)) in ('sosfilt', 'lfilter')
            for j, x in enumerate(t.elts):
                if isinstance(x, ast.Name):
                    r = self.rows(v, st) if filt and j == 0 else None
                    st.rows.pop(x.id, None)
                    self.havoc([x.id], st)
                    if r is not None:
                        st.rows[x.id] = r
                elif isinstance(x, ast.Subscript):
                    self.store(x, v if filt and j == 0 else None, s, st)
        elif isinstance(t, ast.Subscript):
            self.store(t, v, s, st)

    def store(self, t, v, s, st, aug=False):
        if not (isinstance(t.value, ast.Name) and t.value.id in self.managed):
            i = self.first_index(t)
            if isinstance(i, ast.Slice) and v is not None and isinstance(t.value, ast.Name):
                w, r = self.cut(i, self.rows(t.value, st), st), self.rows(v, st)
                if w is not None and r is not None and r != {'1': 1} and not st.zero(add(r, w, -1)) and sure(r, w):
                    self.viol('rows', s, f'{ast.unparse(s)[:70]} puts {show(r)} rows into {show(w)}')
            return
        b = t.value.id
        R = self.bufs[b]
        i = self.first_index(t)
        if isinstance(i, ast.Constant) and i.value is Ellipsis:
            raise Skip
        if isinstance(i, ast.Slice):
            if i.step is not None:
                raise Skip
            lo = {} if i.lower is None else self.ev(i.lower, st)
            hi = R if i.upper is None else self.ev(i.upper, st)
            if lo is None or hi is None or self.neg(lo) or self.neg(hi):
                raise Skip
        else:
            lo = self.ev(i, st)
            if lo is None:
                raise Skip
            hi = add(lo, {'1': 1})
        if isinstance(v, ast.Subscript) and isinstance(v.value, ast.Name) and v.value.id == b:
            # rows moved to the front
            if self.scan:
                return
            j = self.first_index(v)
            if b in st.shift and isinstance(j, ast.Slice) and lo == {}:
                a = {} if j.lower is None else self.ev(j.lower, st)
                z = self.ev(j.upper, st) if j.upper is not None else R
                if a is None or z is None:
                    raise Skip
                gone, left = st.shift.pop(b)
                if add(a, gone, -1) or add(hi, left, -1) or add(z, add(gone, left), -1):
                    self.viol('held', s, f'{gone and show(gone)} rows of {b} were delivered and {show(left)} remain, but rows {show(a)} to {show(z)} are moved to 0 to {show(hi)}')
                st.held[b] = left
                return
            if self.found:
                return
            raise Skip
        if v is not None and isinstance(i, ast.Slice):
            r = self.rows(v, st)
            w = add(hi, lo, -1)
            if r is not None and r != {'1': 1} and not st.zero(add(r, w, -1)) and sure(r, w):
                self.viol('rows', s, f'{ast.unparse(s)[:70]} puts {show(r)} rows into {show(w)}')
        if b not in st.held:
            st.first = getattr(st, 'first', None)
            self.firsts.setdefault(b, []).append((lo, dict(st.flags)))
            st.held[b] = lo
        held = st.held[b]
        w = add(hi, lo, -1)
        if b in st.last and st.last[b] == (lo, hi):
            return
        if b in st.shift:
            gone, left = st.shift.pop(b)
            self.viol('held', s, f'{show(left)} rows of {b} that were not delivered are overwritten')
        d = add(lo, held, -1)
        if not st.zero(d):
            self.viol('held', s, f'{ast.unparse(t)[:50]} stores at row {show(lo)} while {show(held)} rows are filled')
        st.held[b] = hi
        st.last[b] = (lo, hi)
        st.stored.add(b)

    def effects(self, e, st):
        for n in ast.walk(e):
            if isinstance(n, ast.Yield):
                self.do_yield(n, st)
            elif isinstance(n, ast.YieldFrom):
                raise Skip
            elif isinstance(n, (ast.BinOp,)) and not isinstance(getattr(n, '_parent', None), ast.BinOp):
                self.rows(n, st)
            elif isinstance(n, ast.NamedExpr):
                raise Skip

    def do_yield(self, n, st):
        v = n.value
        if v is None:
            return
        self.rep.count('blocks handed out')
        r = self.rows(v, st)
        st.out.append((r, n))
        if r is not None:
            for k in r:
                if ('//' in k or '%' in k) and r == {k: 1} and not st.positive(r):
                    self.viol('empty', n, f'{ast.unparse(v)[:60]} may be a block without rows: nothing excludes {k} = 0')
        for x in ast.walk(v):
            if isinstance(x, ast.Name) and x.id in self.managed:
                p = getattr(x, '_parent', None)
                if isinstance(p, ast.Attribute) and p.attr in ('shape', 'size', 'ndim', 'dtype'):
                    continue
                b = x.id
                R = self.bufs[b]
                k = R
                if isinstance(p, ast.Subscript) and p.value is x:
                    i = self.first_index(p)
                    if not isinstance(i, ast.Slice) or i.step is not None:
                        raise Skip
                    if i.lower is not None and self.ev(i.lower, st) != {}:
                        raise Skip
                    if i.upper is not None:
                        k = self.ev(i.upper, st)
                        if k is None or self.neg(k):
                            raise Skip
                if b not in st.held:
                    st.held[b] = self.H.get(b)
                    if st.held[b] is None:
                        raise Skip
                self.deliver(b, k, n, st)

    def deliver(self, b, k, n, st):
        held = st.held[b]
        if b in st.shift:
            gone, left = st.shift.pop(b)
            self.viol('held', n, f'{show(gone)} rows of {b} were delivered, and they are delivered again: the remaining {show(left)} rows were not moved to the front')
        d = add(held, k, -1)
        if b in self.counter0 and self.tail and k == held and not st.positive(k):
            self.viol('empty', n, f'the last block {ast.unparse(n.value)[:50]} may have no rows: nothing excludes {show(k)} = 0')
        if st.zero(d) or self.ge_full(d, st, k, b):
            st.held[b] = {}
            st.last.pop(b, None)
        elif any(op in ('>=', '>') and not add(d, f, -1) or op in ('<=', '<') and not add(d, f, 1) for f, op in st.facts):
            st.shift[b] = (k, d)
            st.held[b] = d
            st.last.pop(b, None)
        else:
            self.viol('short', n, f'{ast.unparse(n.value)[:60]} hands out {show(k)} rows while {show(held) if held else "no"} rows are filled')
            st.held[b] = {}
            st.last.pop(b, None)
        st.given.add(b)

    def ge_full(self, d, st, k, b):
        """counter grows by single rows and is compared with >= instead of =="""
        return k == self.bufs[b] and self.single.get(b) and any(op == '>=' and not add(d, f, -1) or op == '<=' and not add(d, f, 1) for f, op in st.facts)

    def inner(self, s, st):
        if isinstance(s, ast.For) and isinstance(s.target, ast.Name) and isinstance(s.iter, ast.Call) and last(dotted(s.iter.func)) == 'range' and len(s.iter.args) == 1:
            v = s.target.id
            row = {x.value.id for x in ast.walk(s) if isinstance(x, ast.Subscript) and isinstance(x.ctx, ast.Store) and isinstance(x.value, ast.Name) and x.value.id in self.managed
                   and isinstance(self.first_index(x), ast.Name) and self.first_index(x).id == v}
            if row:
                n = self.ev(s.iter.args[0], st)
                if n is None:
                    raise Skip
                body = st.copy()
                names = self.assigned(s.body) - {v}
                self.havoc(names, body)
                self.fresh += 1
                vs = {f'{v}~{self.fresh}': 1}
                body.env[v] = vs
                for b in row:
                    body.held[b] = dict(vs)
                for e in self.block(s.body, body):
                    if e.end in ('raise', 'return', 'break'):
                        raise Skip
                    for b in row:
                        if add(e.held[b], add(vs, {'1': 1}), -1):
                            self.viol('held', s, f'a pass of the loop over {ast.unparse(s.iter)[:40]} leaves row {v} of {b} without data')
                self.havoc(names, st)
                for b in row:
                    if b not in st.held:
                        self.firsts.setdefault(b, []).append(({}, dict(st.flags)))
                        st.held[b] = {}
                    if st.held[b]:
                        raise Skip
                    st.held[b] = n
                    st.stored.add(b)
                st.env[v] = add(n, {'1': 1}, -1)
                return [st]
        names = self.assigned([s])
        before = set(names)
        self.havoc(before, st)
        body = st.copy()
        if isinstance(s, ast.While):
            self.cond(s.test, True, body)
        outs = self.block(s.body, body)
        res = []
        for x in outs:
            if x.end in ('return', 'raise'):
                res.append(x)
                continue
            x.end = None
            self.havoc(names, x)
            x.facts = [ft for ft in x.facts if not any(any(k == nm or k.startswith(nm + '~') for nm in names) for k in ft[0])]
            res.append(x)
        if not any(x.stored != st.stored or x.given != st.given for x in res if not x.end):
            res = [x for x in res if x.end] + [st]
        return res

    # ------------------------------------------------------------ one generator
    def loop_rows(self, loop, st):
        """what the loop header tells about rows"""
        if not isinstance(loop, ast.For):
            return
        it, t = loop.iter, loop.target
        idx = None
        if isinstance(it, ast.Call) and last(dotted(it.func)) == 'enumerate' and isinstance(t, ast.Tuple) and len(t.elts) == 2:
            if isinstance(t.elts[0], ast.Name):
                idx = t.elts[0].id
            it, t = it.args[0], t.elts[1]
        if self.gens.is_gen(it, self.loc) and isinstance(t, ast.Name):
            st.rows[t.id] = {f'#{t.id}': 1}
            if isinstance(it, ast.Call) and it.args:
                lim = self.ev(it.args[0], st)
                if lim is not None:
                    st.facts.append((add(lim, {f'#{t.id}': 1}, -1), '>='))
            st.facts.append(({f'#{t.id}': 1}, '>'))

    def run(self):
        fn = self.fn
        top = [s for s in fn.body if isinstance(s, (ast.For, ast.While)) and any(isinstance(n, ast.Yield) for n in ast.walk(s))]
        # also loops below if / with / try
        loops = [n for n in walk_no_nested(fn) if isinstance(n, (ast.For, ast.While)) and any(isinstance(x, ast.Yield) for x in ast.walk(n))
                 and not any(isinstance(p, (ast.For, ast.While)) for p in parents(n, fn))]
        for loop in loops:
            self.one(loop)

    def pre(self, loop):
        """allocations, constants and row counts before the loop"""
        st = St()
        self.bufs, self.init = {}, {}
        self.managed, self.boolflags, self.H, self.firsts, self.counter0, self.single, self.tail = set(), set(), {}, {}, set(), {}, False
        inl = self.assigned([loop])
        for n in walk_no_nested(self.fn):
            if not isinstance(n, ast.Assign) or inside_of(n, loop) or n.lineno >= loop.lineno:
                continue
            pairs = []
            for t in n.targets:
                if isinstance(t, ast.Name):
                    pairs.append((t.id, n.value))
                elif isinstance(t, ast.Tuple) and isinstance(n.value, ast.Tuple) and len(t.elts) == len(n.value.elts):
                    pairs += [(a.id, b) for a, b in zip(t.elts, n.value.elts) if isinstance(a, ast.Name)]
            for nm, val in pairs:
                if isinstance(val, ast.Constant):
                    if isinstance(val.value, bool):
                        self.boolflags.add(nm)
                    self.init[nm] = val.value
                r = self.alloc(val, st)
                if r is not None:
                    self.bufs[nm] = r
                else:
                    r = self.rows(val, st)
                    if r is not None:
                        st.rows[nm] = r
        return st

    def one(self, loop):
        st = self.pre(loop)
        self.loop_rows(loop, st)
        stored = set()
        for n in ast.walk(loop):
            if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id in self.bufs:
                stored.add(n.value.id)
        given = set()
        for n in walk_no_nested(self.fn):
            if isinstance(n, ast.Yield) and n.value is not None:
                for x in ast.walk(n.value):
                    if isinstance(x, ast.Name) and x.id in stored:
                        p = x._parent
                        if not (isinstance(p, ast.Attribute) and p.attr in ('shape', 'dtype', 'size')):
                            given.add(x.id)
        cand = stored & given
        for b in stored - cand:
            self.bufs.pop(b)
        # names used as a part of an expression with other arrays stay buffers, but only cand are tracked
        found0 = len(self.found)
        self.rep.count('generator loops')
        # first pass: row counts only
        if cand:
            for b in sorted(cand):
                self.rep.count('buffers')
            try:
                self.fill(loop, st, cand)
                return
            except Skip:
                self.rep.count('buffers not followed')
                del self.found[found0:]
        st = self.pre(loop)
        for b in stored:
            self.bufs.pop(b, None)
        self.loop_rows(loop, st)
        try:
            s0 = st.copy()
            if isinstance(loop, ast.While):
                self.cond(loop.test, True, s0)
            self.block(loop.body, s0)
        except Skip:
            del self.found[found0:]

    def fill(self, loop, st, cand):
        fn = self.fn
        self.managed = set(cand)
        # how does a modulo counter look
        for n in loop.body:
            if isinstance(n, ast.Assign) and isinstance(n.value, ast.BinOp) and isinstance(n.value.op, ast.Mod) and isinstance(n.targets[0], ast.Name):
                self.mods[n.targets[0].id] = (n, self.ev(n.value.right, st))
        carried = self.assigned([loop])
        # pass 1: find where the first store of an iteration goes
        mark = len(self.found)
        s0 = st.copy()
        if isinstance(loop, ast.While):
            self.cond(loop.test, True, s0)
        save = self.viol
        self.viol = lambda *a: None
        skipdeliver = self.deliver
        self.deliver = lambda b, k, n, s: s.held.__setitem__(b, {})
        self.H = {b: {} for b in cand}
        self.scan = True
        try:
            self.block(loop.body, s0)
        finally:
            self.viol, self.deliver, self.scan = save, skipdeliver, False
        del self.found[mark:]
        H = {}
        modb = {}
        for b in cand:
            forms = self.firsts.get(b, [])
            if not forms:
                raise Skip
            pos = [f for f, fl in forms if f]
            modsym = None
            for f in pos:
                for m, (node, mod) in self.mods.items():
                    if f == self.ev(node.value, st):
                        modsym = (m, f, mod)
            if modsym:
                H[b] = modsym[1]
                modb[b] = modsym
                continue
            names = [f for f in pos if len(f) == 1 and list(f.values()) == [1] and list(f)[0].isidentifier()]
            shifted = [f for f in pos if f not in names]
            if names:
                c = names[0]
                if any(n != c for n in names):
                    raise Skip
                H[b] = c
            elif not pos:
                H[b] = {}
            else:
                # a counter with an offset: take the counter itself
                f = shifted[0]
                ids = [k for k, v in f.items() if v == 1 and k.isidentifier()]
                if len(ids) != 1:
                    raise Skip
                H[b] = {ids[0]: 1}
        self.H = H
        for b in cand:
            ks = [k for k in H[b] if k.isidentifier()]
            if ks and self.init.get(ks[0]) == 0 and not isinstance(self.init.get(ks[0]), bool):
                self.counter0.add(b)
            self.single[b] = bool(ks)
        # pass 2
        s0 = st.copy()
        if isinstance(loop, ast.While):
            self.cond(loop.test, True, s0)
        for b in cand:
            s0.held[b] = H[b]
        self.first_paths(s0)
        outs = self.block(loop.body, s0)
        ends = []
        for x in outs:
            self.finish_iteration(x, loop, cand, H, modb, ends, st)
        # after the loop
        for b in cand:
            if not self.tail_ok(loop, b, H, modb, ends, st):
                break

    def first_paths(self, st):
        pass

    def cond_flags_init(self, x, b, H):
        """a path that runs only as long as a flag has its first value: the buffer is still empty"""
        for k, v in x.flags.items():
            if k.startswith('?') and self.init.get(k[1:]) is v:
                return k[1:]
        return None

    def finish_iteration(self, x, loop, cand, H, modb, ends, st):
        for b in cand:
            if x.end == 'raise':
                continue
            held = x.held[b]
            if b in x.shift and x.end in (None, 'continue'):
                gone, left = x.shift[b]
                self.viol('held', loop, f'after {show(gone)} rows of {b} were delivered the remaining {show(left)} rows are not moved to the front')
                continue
            if b in modb:
                m, f, mod = modb[b]
                full = add(mod, {'1': 1}, -1)
                if x.end in (None, 'continue'):
                    at_end = x.zero(add(f, full, -1)) or self.always_full(x, f, full)
                    if b in x.given:
                        if not at_end and held:
                            self.viol('held', loop, f'rows of {b} are lost')
                    elif b in x.stored and not any(op == '!=' and (not add(add(f, full, -1), g, -1) or not add(add(f, full, -1), g, 1)) for g, op in x.facts):
                        self.viol('held', loop, f'{b} is filled again from the start although its rows were not delivered')
                    if add(mod, self.bufs[b], -1):
                        self.viol('held', loop, f'{b} has {show(self.bufs[b])} rows but is filled modulo {show(mod)}')
                continue
            nxt = {}
            for k, v in H[b].items():
                e = x.env.get(k, {k: 1}) if k.isidentifier() else {k: 1}
                nxt = add(nxt, {a: v * w for a, w in e.items()})
            flag = self.cond_flags_init(x, b, H)
            if x.end in (None, 'continue'):
                if flag and b in x.stored and x.flags.get(flag) is self.init.get(flag):
                    self.viol('held', loop, f'{b} is filled from its first row again: {flag} is not changed on this path')
                if not x.zero(add(held, nxt, -1)):
                    self.viol('held', loop, f'at the end of an iteration {show(held) if held else "no"} rows of {b} are filled and not delivered, but the next rows go to {show(nxt)}')
                elif not H[b] and held:
                    self.viol('held', loop, f'{show(held)} rows of {b} are filled but never delivered')
            else:
                ends.append((b, x, nxt))

    def always_full(self, x, f, full):
        return any(op == '==' and (not add(add(f, full, -1), g, -1) or not add(add(f, full, -1), g, 1)) for g, op in x.facts)

    def tail_ok(self, loop, b, H, modb, ends, st0):
        fn = self.fn
        rest = after(loop, fn)
        for bb, x, nxt in ends:
            if bb != b:
                continue
            if x.end == 'return' and x.held[b] and not x.zero(x.held[b]):
                if self.cond_flags_init(x, b, H) or b in self.counter0 and False:
                    continue
                self.viol('lost', loop, f'the generator ends while {show(x.held[b])} rows of {b} are not delivered')
                return False
            if x.end == 'break':
                flag = self.cond_flags_init(x, b, H)
                if flag and b not in x.stored:
                    continue
                y = x.copy()
                y.end = None
                if not self.run_tail(rest, y, b, loop, x.held[b]):
                    return False
        # the loop ended by itself
        if not H[b]:
            return True
        y = st0.copy()
        if isinstance(loop, ast.While) and not self.cond(loop.test, False, y):
            return True
        if b in modb:
            m, f, mod = modb[b]
            y.env[m] = {m: 1}
            return self.mod_tail(rest, y, b, m, mod, loop)
        y.held[b] = H[b]
        return self.run_tail((loop.orelse or []) + rest, y, b, loop, H[b])

    def run_tail(self, rest, y, b, loop, held):
        self.tail = True
        try:
            for z in self.block(rest, y):
                if z.end == 'raise':
                    continue
                h = z.held.get(b)
                if h and not self.none_left(h, z):
                    if b in self.counter0 or b in z.given or any(isinstance(n, ast.Yield) for s in rest for n in ast.walk(s)) or b in y.stored or b in z.stored or not loop_is_bounded_copy(loop):
                        self.viol('lost', loop, f'the generator ends while {show(h)} rows of {b} are not delivered')
                        return False
        finally:
            self.tail = False
        return True

    def none_left(self, h, st):
        if st.zero(h):
            return True
        for f, op in st.facts:
            if op in ('<=', '<') and not add(h, f, -1) or op in ('>=',) and not add(h, f, 1) or op == '==' and (not add(h, f, -1) or not add(h, f, 1)):
                return True
        return False

    def mod_tail(self, rest, y, b, m, mod, loop):
        """c is the row filled last: c + 1 rows remain unless the buffer was full"""
        full = add(mod, {'1': 1}, -1)
        ok = False
        ys = [n for s in rest for n in ast.walk(s) if isinstance(n, ast.Yield)]
        if not ys:
            self.viol('lost', loop, f'rows of {b} that do not fill a block are not delivered at the end')
            return False
        y.held[b] = {m: 1, '1': 1}
        self.tail = True
        try:
            for z in self.block(rest, y):
                if b in z.given:
                    ok = True
                    d = add({m: 1}, full, -1)
                    if not any((op in ('<', '!=') and not add(d, f, -1)) or (op in ('>', '!=') and not add(d, f, 1)) for f, op in z.facts):
                        self.viol('twice', loop, f'the last block repeats rows that were delivered: {m} = {show(full)} is not excluded')
                    for g, op in z.facts:
                        for sg in (1, -1):
                            # sg * m + rest op 0, seen as a lower or an upper bound of m
                            o = op if sg == 1 else {'<': '>', '>': '<', '<=': '>=', '>=': '<='}.get(op, op)
                            e = {k: sg * v for k, v in g.items()}
                            if e.get(m) != 1:
                                continue
                            r = add(e, {m: 1}, -1)
                            if set(r) <= {'1'} and o in ('>', '>=') and -r.get('1', 0) + (o == '>') > 0:
                                self.viol('lost', loop, f'a last block of one row is not delivered ({m} = 0 is excluded)')
                            r = add(r, full)
                            if set(r) <= {'1'} and o in ('<', '<=') and -r.get('1', 0) - (o == '<') < -1:
                                self.viol('lost', loop, f'a last block of {show(add(mod, {"1": 1}, -1))} rows is not delivered')
                    if not z.positive({m: 1, '1': 1}):
                        self.viol('empty', loop, f'the last block may have no rows: nothing excludes {m} = -1')
        finally:
            self.tail = False
        if not ok:
            self.viol('lost', loop, f'rows of {b} that do not fill a block are not delivered at the end')
        return ok


def loop_is_bounded_copy(loop):
    return False


def parents(n, fn):
    p = getattr(n, '_parent', None)
    while p is not None and p is not fn:
        yield p
        p = getattr(p, '_parent', None)


def inside_of(n, loop):
    p = n
    while p is not None:
        if p is loop:
            return True
        p = getattr(p, '_parent', None)
    return False


def after(loop, fn):
    """statements that run after the loop until the function ends"""
    out = []
    cur = loop
    while cur is not fn:
        p = cur._parent
        for field in ('body', 'orelse', 'finalbody', 'handlers'):
            lst = getattr(p, field, None)
            if isinstance(lst, list) and cur in lst and field != 'handlers':
                if not isinstance(p, (ast.For, ast.While)):
                    out += lst[lst.index(cur) + 1:]
                if isinstance(p, ast.Try) and field == 'body':
                    out += p.orelse
        if isinstance(p, ast.Try):
            out += p.finalbody
        cur = p
    return out


# ------------------------------------------------------------------ readers: while c < S: yield data[c:c + num]
def readers(ex, fn):
    for loop in walk_no_nested(fn):
        if not isinstance(loop, ast.While) or not isinstance(loop.test, ast.Compare) or len(loop.test.ops) != 1 or any(isinstance(p, (ast.For, ast.While)) for p in parents(loop, fn)):
            continue
        ys = [n for n in walk_no_nested_in(loop.body) if isinstance(n, ast.Yield) and n.value is not None]
        if len(ys) != 1:
            continue
        y = ys[0]
        sl = [n for n in ast.walk(y.value) if isinstance(n, ast.Subscript) and isinstance(ex.first_index(n), ast.Slice) and ex.first_index(n).lower is not None and ex.first_index(n).upper is not None]
        val = y.value
        if not sl and isinstance(val, ast.Name):
            src = [n.value for n in ast.walk(loop) if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and n.targets[0].id == val.id]
            sl = [n for e in src for n in ast.walk(e) if isinstance(n, ast.Subscript) and isinstance(ex.first_index(n), ast.Slice) and ex.first_index(n).lower is not None and ex.first_index(n).upper is not None]
        if len(sl) != 1:
            continue
        st = ex.pre(loop)
        for n in loop.body:
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and n.lineno < sl[0].lineno and not mentions(n.value, n.targets[0].id):
                v = ex.ev(n.value, st)
                if v is not None:
                    st.env[n.targets[0].id] = v
        ix = ex.first_index(sl[0])
        lo, hi = ex.ev(ix.lower, st), ex.ev(ix.upper, st)
        a, b = ex.ev(loop.test.left, St()), ex.ev(loop.test.comparators[0], St())
        op = OPS.get(type(loop.test.ops[0]))
        if None in (lo, hi, a, b, op):
            continue
        changed = ex.assigned(loop.body)
        if any(k in changed for k in b) and not any(k in changed for k in a):
            a, b, op = b, a, {'<': '>', '>': '<', '<=': '>=', '>=': '<='}.get(op, op)
        if not any(k in changed for k in lo) or op not in ('<', '<=', '!='):
            continue
        ex.rep.count('readers')
        where = sl[0]
        if isinstance(ix.lower, ast.Name):
            init = [n for n in walk_no_nested(fn) if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == ix.lower.id for t in n.targets) and not any(p is loop for p in parents(n, fn))]
            if init and all(isinstance(n.value, ast.Constant) and isinstance(n.value.value, int) and n.value.value > 0 for n in init) and not any(
                    isinstance(n, ast.Yield) and not any(p is loop for p in parents(n, fn)) and n.lineno < loop.lineno for n in walk_no_nested(fn)):
                ex.viol('lost', where, f'the first rows of {ast.unparse(sl[0].value)[:40]} are left out')
        rest = after(loop, fn)
        more = [n for x in (loop.orelse + rest) for n in ast.walk(x) if isinstance(n, (ast.Yield, ast.YieldFrom))]
        full = ex.rows(sl[0].value, st) or {f'len {ast.unparse(sl[0].value)}': 1}
        limited = any(isinstance(x, ast.Call) and last(dotted(x.func)) == 'min' for x in ast.walk(ix.upper)) or any('min(' in k for k in hi)
        if a == lo:
            c = b.get('1', 0) + (op == '<=')
            if len(b) > 2 or not all(x == 1 for k, x in b.items() if k != '1'):
                c = 0
            if c < 0:
                ex.viol('lost', where, f'the loop condition {ast.unparse(loop.test)[:50]} excludes the last rows of {ast.unparse(sl[0].value)[:40]}')
            elif c > 0:
                ex.viol('empty', where, f'a block without rows is handed out when {show(a)} = {show(b)}')
            # the loop bound is not the number of rows of the array: the slice has to stop there as well
            derived = [n for n in walk_no_nested(fn) if isinstance(n, ast.Assign) and isinstance(n.value, (ast.Subscript, ast.Call)) and any(isinstance(t, ast.Name) and {t.id: 1} == b for t in n.targets)]
            cut = [n for n in derived if isinstance(n.value, ast.Subscript) and not (isinstance(n.value.value, ast.Attribute) and n.value.value.attr == 'shape')]
            if cut and not limited:
                ex.viol('beyond', where, f'{ast.unparse(sl[0])[:60]} may contain rows behind {show(b)}')
        elif a == hi and not more:
            ex.viol('lost', where, f'rows that do not fill a block are not handed out: the loop ends as soon as {show(a)} exceeds {show(b)}')
        elif a == hi and op == '<' and more:
            pass
        elif a == hi and op == '<=' and more:
            # what is left may be nothing
            for y in more:
                tests = [p for p in parents(y, fn) if isinstance(p, ast.If) and isinstance(p.test, ast.Compare) and len(p.test.ops) == 1]
                for p in tests:
                    l, r, o = ex.ev(p.test.left, st), ex.ev(p.test.comparators[0], st), OPS.get(type(p.test.ops[0]))
                    if l == b and r == lo:
                        l, r, o = r, l, {'<': '>', '>': '<', '<=': '>=', '>=': '<='}.get(o, o)
                    if l == lo and r == b and o == '<=':
                        ex.viol('empty', y, f'a block without rows is handed out when {show(lo)} = {show(b)}')
        else:
            d = add(a, lo, -1)
            if d and all(x > 0 for x in d.values()) and not more:
                ex.viol('lost', where, f'the loop condition {ast.unparse(loop.test)[:50]} excludes rows of {ast.unparse(sl[0].value)[:40]}')


def mentions(e, name):
    return any(isinstance(x, ast.Name) and x.id == name for x in ast.walk(e))


def walk_no_nested_in(stmts):
    for s in stmts:
        yield s
        yield from walk_no_nested(s)


# ------------------------------------------------------------------ a fixed number of blocks
def block_sums(ex, fn):
    """generators that compute the number of blocks first: every path hands out exactly that many"""
    total, name, samples = None, None, None
    for n in walk_no_nested(fn):
        if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
            v = n.value
            if isinstance(v, ast.Call) and last(dotted(v.func)) == 'int' and v.args:
                v = v.args[0]
            if isinstance(v, ast.Call) and last(dotted(v.func)) == 'ceil' and v.args and isinstance(v.args[0], ast.BinOp) and isinstance(v.args[0].op, ast.Div):
                s, m = v.args[0].left, v.args[0].right
                if isinstance(m, ast.Name) and m.id in ex.params:
                    total, name, samples = n, n.targets[0].id, s
            elif isinstance(v, ast.UnaryOp) and isinstance(v.op, ast.USub) and isinstance(v.operand, ast.BinOp) and isinstance(v.operand.op, ast.FloorDiv) and isinstance(v.operand.left, ast.UnaryOp):
                if isinstance(v.operand.right, ast.Name) and v.operand.right.id in ex.params:
                    total, name, samples = n, n.targets[0].id, v.operand.left.operand
    down = False
    if total is None:
        for n in walk_no_nested(fn):
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                v = n.value
                if isinstance(v, ast.Call) and last(dotted(v.func)) in ('int', 'floor') and v.args:
                    v = v.args[0]
                if isinstance(v, ast.BinOp) and isinstance(v.op, (ast.FloorDiv, ast.Div) if v is not n.value else ast.FloorDiv) and isinstance(v.right, ast.Name) and v.right.id in ex.params and not (
                        isinstance(v.left, ast.BinOp)):
                    total, name, samples, down = n, n.targets[0].id, v.left, True
        always = [n for n in walk_no_nested(fn) if isinstance(n, ast.BoolOp) and isinstance(n.op, ast.Or) and isinstance(n.values[0], ast.BinOp) and isinstance(n.values[0].op, ast.Mod)]
        if not always:
            return
    if total is None:
        return
    rng = [n for n in walk_no_nested(fn) if isinstance(n, ast.For) and isinstance(n.iter, ast.Call) and last(dotted(n.iter.func)) == 'range' and len(n.iter.args) == 1 and any(isinstance(x, ast.Yield) for x in ast.walk(n))]
    if not rng or any(isinstance(n, ast.While) and any(isinstance(x, ast.Yield) for x in ast.walk(n)) for n in walk_no_nested(fn)):
        return
    ex.rep.count('block sums')
    num = ex.params[1] if len(ex.params) > 1 else None
    rem = []

    def run(stmts, paths):
        for s in stmts:
            nxt = []
            for env, n, end in paths:
                if end:
                    nxt.append((env, n, end))
                    continue
                st = St()
                st.env = env
                if isinstance(s, ast.If):
                    nxt += run(s.body, [(dict(env), dict(n), None)]) + run(s.orelse, [(dict(env), dict(n), None)])
                elif s in rng:
                    k = ex.ev(s.iter.args[0], st)
                    per = sum(isinstance(x, ast.Yield) for x in ast.walk(s))
                    if k is None:
                        raise Skip
                    nxt.append((env, add(n, {a: v * per for a, v in k.items()}), None))
                elif isinstance(s, (ast.For, ast.While, ast.Try, ast.With)):
                    if any(isinstance(x, ast.Yield) for x in ast.walk(s)):
                        raise Skip
                    nxt.append((env, n, None))
                elif isinstance(s, ast.Return):
                    nxt.append((env, n, 'return'))
                elif isinstance(s, ast.Raise):
                    nxt.append((env, n, 'raise'))
                else:
                    k = sum(isinstance(x, ast.Yield) for x in ast.walk(s))
                    n = add(n, {'1': k})
                    if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and s is not total:
                        v = ex.ev(s.value, st)
                        env = dict(env)
                        env[s.targets[0].id] = v if v is not None else {s.targets[0].id: 1}
                    nxt.append((env, n, None))
            paths = nxt
        return paths
    try:
        for env, n, end in run(fn.body, [({}, {}, None)]):
            if end != 'raise':
                ex.rep.count('paths summed')
                if down and not add(n, {name: 1}, -1):
                    ex.viol('lost', total, f'{name} = {ast.unparse(total.value)} is rounded down: the rows behind the last full block are not handed out')
                elif not down and add(n, {name: 1}, -1):
                    ex.viol('count', total, f'a path hands out {show(n)} blocks instead of {name} = {ast.unparse(total.value)}')
    except Skip:
        return
    # a loop over a negative number of blocks hands out none, so the sum only holds for numbers that are not negative
    for r in rng:
        v = r.iter.args[0]
        if isinstance(v, ast.Name) and v.id != name:
            defs = [n for n in walk_no_nested(fn) if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == v.id for t in n.targets)]
            reset = [d for d in defs if isinstance(d.value, ast.Constant) and any(isinstance(p, ast.If) and mentions(p.test, v.id) and d in p.body for p in parents(d, fn))]
            bad = [d for d in defs if not not_negative(d.value)]
            if bad and not reset:
                ex.viol('count', bad[0], f'{v.id} = {ast.unparse(bad[0].value)[:60]} can be negative: then more blocks are handed out than {name}')
    # blocks in the loops are full, the last one has what remains
    for n in walk_no_nested(fn):
        if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
            v = n.value
            mod = [x for x in ast.walk(v) if isinstance(x, ast.BinOp) and isinstance(x.op, ast.Mod) and isinstance(x.right, ast.Name) and x.right.id == num]
            if mod and any(isinstance(y, ast.Yield) and y.value is not None and mentions(y.value, n.targets[0].id) for y in walk_no_nested(fn)):
                m = mod[0]
                safe = m is not v and (isinstance(v, (ast.BoolOp, ast.IfExp)) or isinstance(m.left, ast.BinOp))
                if isinstance(m.left, ast.BinOp) and m is v:
                    safe = False
                guarded = any(isinstance(p, ast.If) and mentions(p.test, n.targets[0].id) for y in walk_no_nested(fn) if isinstance(y, ast.Yield) for p in parents(y, fn)) or any(
                    isinstance(p, ast.If) and mentions(p.test, n.targets[0].id) for p in walk_no_nested(fn))
                if not safe and not guarded:
                    ex.viol('empty', n, f'the last block has no rows when {ast.unparse(m.left)} is a multiple of {num}')
                # what is handed out next is cut to that number of rows
                for L in (getattr(p, fld, None) for p in [getattr(n, '_parent', fn)] for fld in ('body', 'orelse', 'finalbody')):
                    if not isinstance(L, list) or not any(x is n for x in L):
                        continue
                    y = next((k for x in L[[i for i, x in enumerate(L) if x is n][0] + 1:] for k in [x, *walk_no_nested(x)] if isinstance(k, ast.Yield)), None)
                    if y is not None and isinstance(y.value, ast.Name):
                        d = [k.value for k in L if isinstance(k, ast.Assign) and k.lineno > n.lineno and any(isinstance(t, ast.Name) and t.id == y.value.id for t in k.targets)]
                        if not any(isinstance(e, ast.Subscript) for e in d) and any(
                                isinstance(k, ast.Assign) and any(isinstance(t, ast.Name) and t.id == y.value.id for t in k.targets) and isinstance(k.value, ast.Call) and
                                last(dotted(k.value.func)) in ('empty', 'zeros', 'ones', 'full') for k in walk_no_nested(fn)):
                            ex.viol('short', y, f'the last block is handed out with {num} rows although only {n.targets[0].id} were filled')
                if ast.unparse(m.left) != ast.unparse(samples) and not isinstance(m.left, ast.BinOp):
                    ex.viol('count', n, f'the last block has {ast.unparse(m)} rows, but the number of blocks is computed from {ast.unparse(samples)}')


def not_negative(e):
    if isinstance(e, ast.Constant):
        return isinstance(e.value, (int, float)) and e.value >= 0
    if isinstance(e, ast.Call):
        f = last(dotted(e.func))
        if f == 'max':
            return any(not_negative(a) for a in e.args)
        if f in ('abs', 'len'):
            return True
        if f in ('int', 'min', 'ceil', 'floor'):
            return bool(e.args) and all(not_negative(a) for a in e.args)
    if isinstance(e, ast.BinOp) and isinstance(e.op, (ast.Add, ast.Mult, ast.FloorDiv, ast.Div)):
        return not_negative(e.left) and not_negative(e.right)
    if isinstance(e, ast.IfExp):
        return not_negative(e.body) and not_negative(e.orelse)
    return isinstance(e, ast.Attribute) and e.attr in ('num_samples', 'num_channels', 'size')


# ------------------------------------------------------------------ rows that are still to come after the source has ended
def flush(ex, fn):
    for w in walk_no_nested(fn):
        if not isinstance(w, ast.While) or not any(isinstance(n, ast.Yield) for n in ast.walk(w)):
            continue
        t = w.test
        if not (isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.left, ast.Name) and isinstance(t.ops[0], (ast.Gt, ast.NotEq)) and isinstance(t.comparators[0], ast.Constant) and t.comparators[0].value == 0) \
                and not isinstance(t, ast.Name):
            continue
        v = t.left.id if isinstance(t, ast.Compare) else t.id
        main = [n for n in walk_no_nested(fn) if isinstance(n, ast.For) and n.lineno < w.lineno and ex.gens.is_gen(n.iter, ex.loc)]
        if len(main) != 1 or v not in ex.assigned(w.body):
            continue
        ex.rep.count('flush loops')
        for loop, isrc in ((main[0], True), (w, False)):
            st = ex.pre(loop)
            ex.loop_rows(loop, st)
            for nm in list(ex.bufs):
                if nm in ex.assigned([loop]):
                    ex.bufs.pop(nm)
            if not isrc:
                st.facts.append(({v: 1}, '>'))
            try:
                for x in ex.block(loop.body, st):
                    if x.end in ('raise',):
                        continue
                    n_in = {}
                    if isrc:
                        tg = loop.target.elts[1] if isinstance(loop.target, ast.Tuple) else loop.target
                        n_in = {f'#{tg.id}': 1} if isinstance(tg, ast.Name) else None
                    out = {}
                    for r, y in x.out:
                        if r is None:
                            raise Skip
                        out = add(out, r)
                    d = add(add(out, n_in, -1), add(x.env.get(v, {v: 1}), {v: 1}, -1))
                    ex.rep.count('flush paths')
                    if d:
                        ex.viol('lost', loop, f'one pass takes {show(n_in)} rows, hands out {show(out)} and changes {v} by {show(add(x.env.get(v, {v: 1}), {v: 1}, -1))}: {v} does not count the rows still to come')
                    else:
                        need = add({v: 1}, n_in)
                        if not any(k.startswith('min(') and show(need) in k[4:-1].split(', ') for k in out) and not x.le(out, need):
                            ex.viol('beyond', loop, f'{show(out)} rows are handed out though only {show(need)} remain')
            except Skip:
                ex.rep.count('flush loops not followed')


# ------------------------------------------------------------------ a buffer object with a position
def positions(prog, rep):
    for ci in prog.classes.values():
        lvl = None
        for name, m in ci.methods.items():
            rets = [n.value for n in ast.walk(m.node) if isinstance(n, ast.Return) and n.value is not None]
            if name.startswith('_get_') and len(rets) == 1 and isinstance(rets[0], ast.BinOp) and isinstance(rets[0].op, ast.Sub):
                l, r = rets[0].left, rets[0].right
                if isinstance(l, ast.Subscript) and isinstance(l.value, ast.Attribute) and l.value.attr == 'shape' and isinstance(l.slice, ast.Constant) and l.slice.value == 0:
                    d1, d2 = dotted(l.value.value), dotted(r)
                    if d1 and d2 and d1.startswith('self.') and d2.startswith('self.'):
                        lvl = (name[5:], d1, d2)
        if not lvl:
            continue
        level, B, I = lvl
        rep.count('buffer objects')
        for name, m in ci.methods.items():
            check_method(prog, rep, m, ci, name, level, B, I)


def preorder(n):
    yield n
    for c in ast.iter_child_nodes(n):
        yield from preorder(c)


def stmt_of(n):
    while not isinstance(n, ast.stmt):
        n = n._parent
    return n


def exclusive(a, b, fn):
    """two nodes in different branches of one conditional"""
    def sides(x):
        out, c = {}, x
        while c is not fn:
            p = c._parent
            if isinstance(p, ast.If):
                out[p] = 'body' if c in p.body else 'orelse' if c in p.orelse else 'test'
            c = p
        return out
    sa, sb = sides(a), sides(b)
    return any(p in sb and {s, sb[p]} == {'body', 'orelse'} for p, s in sa.items())


def check_method(prog, rep, m, ci, name, level, B, I):
    fn = m.node
    where = lambda n: f'{m.module.rel}:{n.lineno} {ci.name}.{name}'
    key = f'{m.module.name}:{ci.name}.{name}'
    ex = Exec(prog, Gens(prog), fn, m, f'{ci.name}.{name}', rep, where)
    touch = [n for n in ast.walk(fn) if isinstance(n, (ast.Subscript, ast.Attribute)) and isinstance(n.ctx, ast.Store) and (dotted(n) == B or isinstance(n, ast.Subscript) and dotted(n.value) == B)]
    moves = [n for n in ast.walk(fn) if isinstance(n, (ast.Assign, ast.AugAssign)) and any(dotted(t) == I for t in (n.targets if isinstance(n, ast.Assign) else [n.target]))]
    if not touch and not moves:
        return
    rep.count('buffer methods')
    st = St()
    for n in ast.walk(fn):
        if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and isinstance(n.value, ast.Subscript) and isinstance(n.value.value, ast.Attribute) and n.value.value.attr == 'shape':
            st.env[n.targets[0].id] = {f'len {ast.unparse(n.value.value.value)}': 1}

    def ev(e):
        if isinstance(e, ast.Subscript) and isinstance(e.value, ast.Attribute) and e.value.attr == 'shape' and isinstance(e.slice, ast.Constant):
            return {f'len {ast.unparse(e.value.value)}' if e.slice.value == 0 else f'{ast.unparse(e)}': 1}
        if isinstance(e, ast.Call) and last(dotted(e.func)) == 'len' and e.args:
            return {f'len {ast.unparse(e.args[0])}': 1}
        return ex.ev(e, st)

    def delta():
        """change of the position per path through straight code"""
        d = {}
        for n in moves:
            if isinstance(n, ast.AugAssign) and isinstance(n.op, (ast.Add, ast.Sub)):
                v = ev(n.value)
                if v is None:
                    return None
                d = add(d, v, 1 if isinstance(n.op, ast.Add) else -1)
            elif isinstance(n, ast.Assign):
                v = ev(n.value)
                if v is None or I not in v:
                    return None
                d = add(d, add(v, {I: 1}, -1))
        return d
    tail = [n for n in touch if isinstance(n, ast.Subscript)]
    stores = []
    for n in tail:
        p = n._parent
        if isinstance(p, (ast.Assign, ast.AugAssign)):
            stores.append((n, p.value))
    whole = [n for n in touch if isinstance(n, ast.Attribute)]
    if stores:
        d = delta()
        shift = put = None
        for t, v in stores:
            i = ex.first_index(t)
            if not isinstance(i, ast.Slice):
                return
            lo, hi = (ev(i.lower) if i.lower is not None else {}), (ev(i.upper) if i.upper is not None else None)
            if isinstance(v, ast.Subscript) and dotted(v.value) == B:
                j = ex.first_index(v)
                if isinstance(j, ast.Slice):
                    a = ev(j.lower) if j.lower is not None else {}
                    shift = (lo, hi, a, j.upper)
                    R = {f'len {B}': 1}
                    if hi is not None and hi and all(x < 0 for x in hi.values()):
                        hi = add(R, hi)
                    if lo == {} and hi is not None and a is not None and add(add(hi, a), R, -1) and j.upper is None:
                        rep.viol('position', f'{key}:shift', f'{ast.unparse(t)} and {ast.unparse(v)} have different numbers of rows', where(t))
            else:
                if i.upper is None and lo and all(x < 0 for x in lo.values()):
                    put = {k: -x for k, x in lo.items()}
        if shift and put is not None and shift[2] is not None:
            rep.count('buffer writes')
            if add(shift[2], put, -1):
                rep.viol('position', f'{key}:shift', f'{show(put)} rows are appended but the older rows are moved by {show(shift[2])}', where(tail[0]))
            if d is not None and add(d, put):
                rep.viol('position', f'{key}:index', f'{show(put)} rows are appended but the position of the first row changes by {show(d) if d else 0}', where(tail[0]))
        elif put is not None and not shift:
            rep.viol('position', f'{key}:shift', f'{show(put)} rows are appended without moving the older rows', where(tail[0]))
    for n in whole:
        p = n._parent
        v = p.value if isinstance(p, ast.Assign) else None
        if isinstance(v, ast.Call) and last(dotted(v.func)) in ('concatenate', 'vstack', 'append', 'r_') and v.args:
            parts = v.args[0].elts if isinstance(v.args[0], (ast.Tuple, ast.List)) else []
            if len(parts) == 2:
                first = dotted(parts[0]) == B
                other = parts[1] if first else parts[0]
                r = ex.alloc(other, st)
                if r is None and isinstance(other, ast.Name):
                    for x in ast.walk(fn):
                        if isinstance(x, ast.Assign) and any(isinstance(t, ast.Name) and t.id == other.id for t in x.targets):
                            r = ex.alloc(x.value, st)
                d = delta()
                rep.count('buffer writes')
                if r is not None and d is None and not first and any(isinstance(x, ast.Assign) and I not in (dotted(y) for y in ast.walk(x.value)) for x in moves):
                    rep.viol('position', f'{key}:index', f'{show(r)} rows are put in front, but the position of the first row is set to another value', where(n))
                if r is not None and d is not None and not first and add(d, r, -1):
                    rep.viol('position', f'{key}:index', f'{show(r)} rows are put in front, but the position of the first row changes by {show(d) if d else 0}', where(n))
                if first:
                    rep.viol('position', f'{key}:front', 'rows are added behind the newest ones', where(n))
        elif isinstance(v, ast.Call) and last(dotted(v.func)) in ALLOC:
            r = ex.alloc(v, st)
            set_to = [ev(x.value) for x in moves if isinstance(x, ast.Assign)]
            rep.count('buffer writes')
            if r is not None and not any(x is not None and not add(x, r, -1) for x in set_to):
                rep.viol('position', f'{key}:reset', f'a new buffer of {show(r)} rows is not marked as empty', where(n))
    order = {x: k for k, x in enumerate(y for y in preorder(fn) if isinstance(y, ast.stmt))}
    # the position can be held in a name before it is changed
    held = set()
    for n in ast.walk(fn):
        if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and dotted(n.value) == I and not any(order[x] < order[n] for x in moves):
            held.add(n.targets[0].id)
            st.env[n.targets[0].id] = {I: 1}
    reads = [n for n in ast.walk(fn) if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Load) and dotted(n.value) == B and isinstance(ex.first_index(n), ast.Slice)]
    if reads and not stores:
        for n in reads:
            i = ex.first_index(n)
            lo = ev(i.lower) if i.lower is not None else {}
            hi = ev(i.upper) if i.upper is not None else None
            rep.count('buffer reads')
            if lo is None:
                continue
            if lo != {I: 1}:
                rep.viol('position', f'{key}:read', f'{ast.unparse(n)[:60]} does not begin at the first row that was not delivered', where(n))
                continue
            if hi is None:
                continue
            w = add(hi, lo, -1)
            if not moves:
                rep.viol('position', f'{key}:read', f'{ast.unparse(n)[:60]} is delivered again and again: {I} is not changed', where(n))
            ks = [k for k in w if k.isidentifier()]
            if w and not any(level in ast.unparse(x) or 'min' in ast.unparse(x) for k in ks for x in ast.walk(fn) if isinstance(x, ast.Assign) and any(isinstance(t, ast.Name) and t.id == k for t in x.targets)):
                rep.viol('position', f'{key}:read', f'{show(w)} rows are read without comparing with the rows that are there', where(n))
            before = [x for x in moves if order.get(x, 0) < order.get(stmt_of(n), 0) and not exclusive(x, n, fn)]
            if before and not any(isinstance(x, ast.Name) and x.id in held for x in ast.walk(i.lower)):
                rep.viol('position', f'{key}:read', f'{I} is advanced before the rows are read', where(n))


def check(prog, rep):
    rep.rule('rows', 'arrays that are combined or copied row by row have the same number of rows, in the last (shorter) block too')
    rep.rule('short', 'a buffer is handed out with exactly the rows that were filled')
    rep.rule('held', 'rows are stored where the filled rows end; after an iteration the counter equals the rows that are filled and not delivered')
    rep.rule('lost', 'rows that were filled are delivered before the generator ends')
    rep.rule('empty', 'no block without rows')
    rep.rule('twice', 'no row is delivered twice')
    rep.rule('beyond', 'no row is handed out that does not belong to the stream')
    rep.rule('count', 'a generator that computes the number of blocks hands out that many on every path')
    rep.rule('position', 'the position kept by a buffer object always points at the first row that was not delivered')
    gens = Gens(prog)
    positions(prog, rep)
    for f, cls, q in all_funcs(prog):
        if not f.generator:
            continue
        rep.count('generators')

        def where(n, f=f, q=q):
            return f'{f.module.rel}:{n.lineno} {q}'
        ex = Exec(prog, gens, f.node, f, q, rep, where)
        ex.run()
        readers(ex, f.node)
        block_sums(ex, f.node)
        flush(ex, f.node)
        seen = set()
        for rule, key, msg, wh in ex.found:
            if (key, msg) not in seen:
                seen.add((key, msg))
                rep.viol(rule, key, msg, wh)
        if ex.found == [] and len(rep.samples) < 8:
            rep.sample({'generator': f'{f.module.name}:{q}'})
    rep.floor('generators', 25)
    rep.floor('buffers', 8)
