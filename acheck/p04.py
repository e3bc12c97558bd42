"""P04: an interrupted run never leaves a cache entry that is served as complete.

Abstract interpretation of the time data cache: its result() generator is followed, with everything it calls on itself,
for every policy and every state an earlier session may have left the entry in.  Tracked are the state of the entry, the
blocks received from the source (stored? delivered?), the blocks served from the entry, and the counters comparing both.
"""

import ast

from .model import dotted

POLICIES = ('all', 'individual', 'readonly', 'overwrite', 'none')
ENTRIES = ('absent', 'unmarked', 'incomplete', 'complete')
UNK = ('?',)
LIMIT = 4000


class GiveUp(Exception):
    pass


class St(tuple):
    """entry, content, env, src, delta, first, stored, given, served, full, lost, ended"""
    __slots__ = ()
    F = ('entry', 'content', 'env', 'src', 'delta', 'first', 'stored', 'given', 'served', 'full', 'lost', 'ended', 'file')

    @staticmethod
    def make(**kw):
        return St(kw[f] for f in St.F)

    def set(self, **kw):
        return St(kw.get(f, v) for f, v in zip(self.F, self))

    def __getattr__(self, n):
        try:
            return self[self.F.index(n)]
        except ValueError:
            raise AttributeError(n) from None

    def get(self, name):
        return dict(self.env).get(name, UNK)

    def bind(self, name, v):
        d = dict(self.env)
        d[name] = v
        return self.set(env=tuple(sorted(d.items())))

    def mapenv(self, f):
        return self.set(env=tuple((k, f(v)) for k, v in self.env))


def lin_add(a, k):
    if a[0] == 'c' and isinstance(a[1], int):
        return ('c', a[1] + k)
    if a[0] in ('served', 'idx'):
        return (a[0], a[1] + k)
    return UNK


class Run:
    def __init__(self, prog, cls, policy, entry, rep, hasfile=True):
        self.prog, self.cls, self.policy, self.initial, self.rep = prog, cls, policy, entry, rep
        self.me = 'self'
        self.depth = 0
        self.hasfile = hasfile
        self.func = None
        self.steps = 0
        self.found = {}
        self.scen = f'{policy}/{entry if hasfile else "no file"}'

    def bad(self, key, msg, node):
        self.found.setdefault(key, (msg, f'{self.func.module.rel}:{node.lineno}', f'{self.cls.name}.{self.func.name}'))

    # values ------------------------------------------------------------------------------------------------------
    def ev(self, e, st):
        if e is None:
            return ('c', None)
        if isinstance(e, ast.Constant):
            return ('c', e.value)
        if isinstance(e, ast.Name):
            if e.id == self.me:
                return ('self',)
            return st.get((self.depth, e.id))
        if isinstance(e, ast.Attribute):
            d = dotted(e)
            if d and d.split('.')[-1] == 'global_caching':
                return ('c', self.policy)
            b = self.ev(e.value, st)
            if b == ('self',):
                if e.attr == 'h5f':
                    return ('h5f',) if st.file else ('c', None)
                if e.attr == 'source':
                    return ('source',)
                if self.cls.find_method(e.attr):
                    return ('meth', e.attr)
                return ('attr', e.attr)
            if b == ('node',):
                if e.attr in ('attrs', '_v_attrs'):
                    return ('marks',)
                if e.attr == 'shape':
                    return ('shape',)
                if e.attr == 'nrows':
                    return ('N',)
            return ('of', b, e.attr) if b != UNK else UNK
        if isinstance(e, ast.Subscript):
            b = self.ev(e.value, st)
            if b == ('marks',) and isinstance(e.slice, ast.Constant) and e.slice.value == 'complete':
                return ('c', st.entry == 'complete')
            if b == ('shape',) and isinstance(e.slice, ast.Constant) and e.slice.value == 0:
                return ('N',)
            if b == ('node',) and isinstance(e.slice, ast.Slice):
                if e.slice.step is not None:
                    return UNK
                lo = self.ev(e.slice.lower, st) if e.slice.lower is not None else ('c', 0)
                hi = self.ev(e.slice.upper, st) if e.slice.upper is not None else ('N',)
                return ('slice', lo, hi)
            if b == ('node',) and isinstance(e.slice, ast.Tuple):
                return UNK
            return UNK
        if isinstance(e, ast.IfExp):
            out = set()
            for v, s in self.branch(e.test, st):
                out.add(self.ev(e.body if v else e.orelse, s))
            return out.pop() if len(out) == 1 else UNK
        if isinstance(e, ast.BinOp):
            a, b = self.ev(e.left, st), self.ev(e.right, st)
            sgn = 1 if isinstance(e.op, ast.Add) else -1 if isinstance(e.op, ast.Sub) else 0
            if sgn and b[0] == 'c' and isinstance(b[1], int):
                if a[0] == 'num':
                    return ('num', (a[1] if len(a) > 1 else 0) + sgn * b[1])
                return lin_add(a, sgn * b[1]) if a[0] != 'pos' else ('pos', a[1], a[2] + sgn * b[1])
            if sgn == 1 and a[0] == 'c' and isinstance(a[1], int) and b[0] in ('served', 'idx'):
                return lin_add(b, a[1])
            if sgn and b[0] == 'num':
                off = sgn * (b[1] if len(b) > 1 else 0)
                if a[0] == 'pos':
                    return ('pos', a[1] + sgn, a[2] + off)
                if a[0] == 'c' and a[1] == 0 and st.served == '0':
                    return ('pos', sgn, off)
                return UNK
            if sgn == 1 and a == ('num',) and b[0] == 'pos':
                return ('pos', b[1] + 1, b[2])
            return UNK
        if isinstance(e, (ast.JoinedStr, ast.List, ast.Tuple, ast.Dict)):
            return ('obj',)
        if isinstance(e, ast.Call):
            return self.call(e, st)
        if isinstance(e, (ast.Compare, ast.BoolOp, ast.UnaryOp)):
            vs = {v for v, _ in self.branch(e, st)}
            return ('c', vs.pop()) if len(vs) == 1 else UNK
        return UNK

    @staticmethod
    def norm(v):
        return v

    def call(self, e, st):
        """value of a call without effects on the entry; effects are in effect()"""
        f = e.func
        if isinstance(f, ast.Attribute):
            if f.attr == 'is_cached':
                return ('c', st.entry != 'absent')
            if f.attr == 'get_data_by_reference':
                return ('node',)
            b = self.ev(f.value, st)
            if b == ('marks',) and e.args and isinstance(e.args[0], ast.Constant) and e.args[0].value == 'complete':
                if f.attr == '__contains__':
                    return ('c', st.entry in ('incomplete', 'complete'))
                if f.attr == 'get':
                    if st.entry in ('incomplete', 'complete'):
                        return ('c', st.entry == 'complete')
                    return self.ev(e.args[1], st) if len(e.args) > 1 else ('c', None)
            if f.attr == 'get_node_attribute' and len(e.args) > 1 and isinstance(e.args[1], ast.Constant) and e.args[1].value == 'complete':
                return ('c', st.entry == 'complete')
            if b == ('source',) and f.attr == 'result':
                return ('iter',)
            if b[0] == 'self' and self.cls.find_method(f.attr):
                return ('gen', f.attr, tuple(self.ev(a, st) for a in e.args), tuple((k.arg, self.ev(k.value, st)) for k in e.keywords))
        if isinstance(f, ast.Name):
            v = st.get((self.depth, f.id))
            if v[0] == 'meth':
                return ('gen', v[1], tuple(self.ev(a, st) for a in e.args), tuple((k.arg, self.ev(k.value, st)) for k in e.keywords))
            if f.id == 'enumerate' and e.args:
                start = self.ev(e.args[1], st) if len(e.args) > 1 else ('c', 0)
                for k in e.keywords:
                    start = self.ev(k.value, st)
                return ('enum', self.ev(e.args[0], st), start)
            if f.id == 'len' and e.args and self.ev(e.args[0], st) == ('node',):
                return ('N',)
            if f.id == 'bool' and len(e.args) == 1:
                vs = {v for v, _ in self.branch(e.args[0], st)}
                return ('c', vs.pop()) if len(vs) == 1 else UNK
            if f.id == 'iter' and e.args:
                return self.ev(e.args[0], st)
            if f.id == 'min' and len(e.args) == 2:
                a, b = (self.ev(x, st) for x in e.args)
                if b == ('N',):
                    return a
                if a == ('N',):
                    return b
            if f.id == 'range':
                return ('range', tuple(self.ev(a, st) for a in e.args))
            if f.id == 'getattr':
                return UNK
        return ('obj',) if not self.touches(e) else UNK

    def touches(self, e):
        return any(isinstance(n, ast.Attribute) and n.attr in ('h5f', 'source') for n in ast.walk(e))

    # conditions --------------------------------------------------------------------------------------------------
    def branch(self, t, st):
        """-> list of (bool, state)"""
        if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            return [(not v, s) for v, s in self.branch(t.operand, st)]
        if isinstance(t, ast.BoolOp):
            stop = isinstance(t.op, ast.Or)
            live, out = [st], []
            for i, x in enumerate(t.values):
                nxt = []
                for s in live:
                    for v, s2 in self.branch(x, s):
                        if v == stop:
                            out.append((stop, s2))
                        else:
                            nxt.append(s2)
                live = nxt
            return out + [(not stop, s) for s in live]
        if isinstance(t, ast.Compare) and len(t.ops) == 1:
            return self.compare(t, st)
        if isinstance(t, ast.NamedExpr):
            return self.branch(t.value, st.bind((self.depth, t.target.id), self.ev(t.value, st)))
        if isinstance(t, ast.Call) and isinstance(t.func, ast.Name) and t.func.id == 'bool' and len(t.args) == 1:
            return self.branch(t.args[0], st)
        v = self.ev(t, st)
        if v[0] == 'gen' and not self.is_generator(v[1]):
            out = []
            for k, s, r in self.inline_value(v, st, t):
                if k == 'next':
                    out += [(bool(r[1]), s)] if r[0] == 'c' else [(True, s)] if r[0] == 'node' else [(True, s), (False, s)]
            return out
        if v[0] == 'c':
            return [(bool(v[1]), st)]
        if v[0] in ('node', 'h5f', 'meth', 'source', 'block', 'gen', 'self', 'marks'):
            return [(True, st)]
        return [(True, st), (False, st)]

    def compare(self, t, st):
        op = type(t.ops[0])
        b = self.ev(t.comparators[0], st)
        if op in (ast.In, ast.NotIn):
            if isinstance(t.left, ast.Constant) and t.left.value == 'complete' and b == ('marks',):
                return [((st.entry in ('incomplete', 'complete')) == (op is ast.In), st)]
            a = self.ev(t.left, st)
            c = t.comparators[0]
            if a[0] == 'c' and isinstance(c, (ast.Tuple, ast.List, ast.Set)) and all(isinstance(x, ast.Constant) for x in c.elts):
                return [((a[1] in [x.value for x in c.elts]) == (op is ast.In), st)]
            if b == ('h5f',):
                return [((st.entry != 'absent') == (op is ast.In), st)]
            return [(True, st), (False, st)]
        a = self.ev(t.left, st)
        if op in (ast.Is, ast.IsNot, ast.Eq, ast.NotEq):
            pos = op in (ast.Is, ast.Eq)
            if a[0] == b[0] == 'c':
                return [((a[1] == b[1]) == pos, st)]
            if b == ('c', None) and a[0] in ('node', 'h5f', 'block', 'meth', 'gen', 'iter', 'attrs', 'source', 'obj'):
                return [(not pos, st)]
        sym = {ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>=', ast.Eq: '==', ast.NotEq: '!='}.get(op)
        if sym is None:
            return [(True, st), (False, st)]
        # positions in the entry against its length
        if a == ('N',) and b[0] in ('pos', 'c'):
            a, b, sym = b, a, {'<': '>', '<=': '>=', '>': '<', '>=': '<=', '==': '==', '!=': '!='}[sym]
        if b == ('N',):
            if a[0] == 'c' and a[1] == 0 and st.served == '0':
                a = ('pos', 0, 0)
            if a[0] == 'pos':
                return self.against_end(a, sym, st)
            return [(True, st), (False, st)]
        d = self.diff(a, b, st)
        if d is None:
            return [(True, st), (False, st)]
        lo, hi = d
        out = []
        for v in (True, False):
            if any({'<': x < 0, '<=': x <= 0, '>': x > 0, '>=': x >= 0, '==': x == 0, '!=': x != 0}[sym] == v for x in self.probe(lo, hi)):
                out.append((v, st))
        return out

    @staticmethod
    def probe(lo, hi):
        return [x for x in (-9, -3, -2, -1, 0, 1, 2, 3, 9) if (lo is None or x >= lo) and (hi is None or x <= hi)]

    def diff(self, a, b, st):
        """bounds of a - b"""
        if a[0] == b[0] == 'c' and isinstance(a[1], int) and isinstance(b[1], int):
            return a[1] - b[1], a[1] - b[1]
        if a[0] == b[0] and a[0] in ('served', 'idx'):
            return a[1] - b[1], a[1] - b[1]
        neg = False
        if a[0] == 'served' or (a[0] == 'c' and b[0] == 'idx'):
            a, b, neg = b, a, True
        if a[0] == 'idx':
            if b[0] == 'c' and isinstance(b[1], int):
                if st.served == '0' and st.delta is not None:
                    b = ('served', b[1])
                else:
                    lo = 0 if st.first else 1
                    hi = 0 if st.first else None
                    lo, hi = lo + a[1] - b[1], None if hi is None else hi + a[1] - b[1]
                    return (None if hi is None else -hi, -lo) if neg else (lo, hi)
            if b[0] == 'served' and st.delta is not None:
                k = a[1] - b[1]
                lo, hi = {'<': (None, -1 + k), '0': (k, k), '>': (1 + k, None)}[st.delta]
                return (None if hi is None else -hi, None if lo is None else -lo) if neg else (lo, hi)
        if a[0] == 'c' and b[0] == 'served' and st.served == '+' and isinstance(a[1], int):
            pass
        return None

    def against_end(self, a, sym, st):
        """pos + k*num + c  <sym>  N"""
        _, k, c = a
        out = []
        if sym in ('<', '!='):
            # true: (pos + k num + c < N)
            t = st.set(full='full' if k >= 1 and c >= 0 else 'some' if k == 0 and c >= 0 else st.full)
            if k >= 1 and c >= 0 and not (k == 1 and c == 0):
                t = st.set(full='full')
            out.append((True, t))
            out.append((False, st.set(ended='end' if (k, c) == (0, 0) or k < 0 or (k == 0 and c < 0) else 'early')))
        elif sym == '<=':
            out.append((True, st.set(full='full' if k >= 1 and c >= 0 else st.full)))
            out.append((False, st.set(ended='early' if k > 0 or c > 1 else 'end')))
        elif sym in ('>=', '=='):
            for v, s in self.against_end(a, '<', st):
                out.append((not v, s))
        elif sym == '>':
            for v, s in self.against_end(a, '<=', st):
                out.append((not v, s))
        return out

    # effects -----------------------------------------------------------------------------------------------------
    def effects(self, e, st):
        """calls inside an expression that change the entry, in order -> state"""
        calls = [n for n in ast.walk(e) if isinstance(n, ast.Call)]
        calls.sort(key=lambda n: (n.end_lineno, n.end_col_offset))
        for n in calls:
            f = n.func
            if not isinstance(f, ast.Attribute):
                continue
            if f.attr in ('create_extendable_array', 'create_compressible_array', 'create_earray', 'create_array'):
                if st.entry != 'absent':
                    self.bad('exists', 'an entry is created although one exists', n)
                st = st.set(entry='unmarked', content='new', stored=False, lost=False, delta=st.delta)
                if st.src == 'run' and not st.first:
                    st = st.set(lost=True)
            elif f.attr in ('remove_data', 'remove_node'):
                st = st.set(entry='absent', content='none')
            elif f.attr in ('set_node_attribute', 'set_attr'):
                args = n.args[1:] if f.attr == 'set_node_attribute' else n.args
                if len(args) == 2 and isinstance(args[0], ast.Constant) and args[0].value == 'complete':
                    st = self.mark(self.ev(args[1], st), st, n)
            elif f.attr in ('append_data', 'append'):
                arg = n.args[-1] if n.args else None
                v = self.ev(arg, st) if arg is not None else UNK
                if f.attr == 'append' and self.ev(f.value, st) != ('node',):
                    continue
                if v == ('block',) or v == UNK:
                    if st.stored and v == ('block',):
                        self.bad('twice', 'a block of the source is stored twice', n)
                    st = st.set(stored=True)
                    if st.entry == 'complete':
                        st = st.set(entry='complete')
                elif v[0] == 'slice':
                    self.bad('own', 'stored data is appended to the entry again', n)
            elif f.attr == 'get_cache_file':
                st = st.set(file=self.hasfile)
        return st

    def mark(self, v, st, n):
        if v[0] != 'c':
            raise GiveUp(f'mark {n.lineno}')
        if not v[1]:
            return st.set(entry='incomplete')
        if st.content == 'new' and (st.lost or (st.src in ('run', 'done') and not st.stored)):
            self.bad('lost', 'the entry is marked complete although a block of the source has not been stored', n)
        if st.content == 'old' and self.initial != 'complete':
            self.bad('old', 'data left by an earlier session, not known to be complete, is marked complete', n)
        return st.set(entry='complete')

    def premature(self, st, n):
        if st.content == 'new' and st.entry == 'complete' and st.src != 'done':
            self.bad('premature', 'the entry is marked complete before the source is exhausted; a run that is interrupted here leaves partial data '
                                  'that is served as complete', n)

    def give(self, v, st, n):
        """a block is delivered"""
        if v == ('block',):
            if st.given:
                self.bad('again', 'a block is delivered twice', n)
            if st.delta == '<':
                self.bad('repeat', 'a block of the source is delivered although it has been delivered from the cache entry already', n)
            if st.src != 'run':
                self.bad('late', 'a block is delivered after the source has ended', n)
            return st.set(given=True)
        if v[0] == 'slice':
            lo, hi = v[1], v[2]
            if lo == ('c', 0) and st.served == '0':
                lo = ('pos', 0, 0)
            if st.content != 'old':
                self.bad('serve', 'data is delivered from an entry that has been removed or has just been created', n)
            if self.initial == 'complete' and self.policy == 'overwrite':
                self.bad('serve-old', 'old data is delivered under the policy that overwrites it', n)
            if hi == ('c', 0) or lo[0] != 'pos' or hi[0] != 'pos':
                if lo == UNK or hi == UNK:
                    raise GiveUp(f'slice {n.lineno}')
                if lo == ('pos', 0, 0) and hi == ('num',):
                    hi = ('pos', 1, 0)
                elif hi == ('N',) and lo[:1] == ('pos',):
                    raise GiveUp(f'slice {n.lineno}')
                else:
                    self.bad('range', 'the rows delivered from the entry do not follow those delivered before', n)
                    return st
            if lo[1:] != (0, 0):
                self.bad('range', 'the rows delivered from the entry do not follow those delivered before', n)
                raise GiveUp('reported')
            elif hi[1:] != (1, 0):
                self.bad('range', 'the rows delivered from the entry are not the number asked for', n)
            if self.initial != 'complete' and st.full != 'full':
                self.bad('partial', 'a possibly shorter block is delivered from an incomplete entry, after which the blocks of the source are counted wrongly', n)

            def shift(x, many=st.served == '+'):
                if x[0] == 'pos':
                    return ('pos', x[1] - 1, x[2])
                if x[0] == 'c' and isinstance(x[1], int) and not isinstance(x[1], bool) and not many:
                    return ('cnt', x[1])      # either a counter or a position, decided by the next addition
                if x[0] == 'served':
                    return ('served', x[1] - 1)
                return x
            return st.mapenv(shift).set(served='+', full=None)
        if v == UNK:
            raise GiveUp(f'yield {n.lineno}')
        return st

    def request(self, st, n):
        """the next block is asked for -> [(state with a block | done)]"""
        self.premature(st, n)
        if st.src == 'run':
            if not st.stored and st.content == 'new':
                st = st.set(lost=True)
            if not st.given and st.delta in (None, '0', '>'):
                self.bad('withheld', 'a block of the source is not delivered', n)
        out = []
        if st.src == 'idle':
            deltas, first = (['0'] if st.served == '0' else ['<']), True
        else:
            deltas, first = ({'<': ['<', '0'], '0': ['>'], '>': ['>'], None: [None]}[st.delta]), False
        nofirst = st.src == 'idle'
        for d in deltas:
            out.append(('block', st.set(src='run', delta=d, first=first, stored=False, given=False)))
        done = st.set(src='done', first=None)
        if nofirst:
            done = done.set(stored=True, given=True, delta=None)
        elif not st.stored:
            done = done.set(stored=st.stored)
        out.append(('done', done))
        return out

    # statements --------------------------------------------------------------------------------------------------
    def block(self, body, states):
        live, out = set(states), []
        for s in body:
            nxt = set()
            for st in live:
                for k, s2 in self.stmt(s, st):
                    if k == 'next':
                        nxt.add(s2)
                    else:
                        out.append((k, s2))
            live = nxt
        return [('next', s) for s in live] + list(dict.fromkeys(out))

    def assign(self, target, v, st):
        if isinstance(target, ast.Name):
            return st.bind((self.depth, target.id), v)
        if isinstance(target, (ast.Tuple, ast.List)):
            for t in target.elts:
                st = self.assign(t, UNK, st)
        return st

    def stmt(self, n, st):
        self.steps += 1
        if self.steps > 60000:
            raise GiveUp('too many steps')
        if isinstance(n, (ast.Pass, ast.Import, ast.ImportFrom, ast.Global, ast.Nonlocal, ast.FunctionDef, ast.Assert)):
            return [('next', st)]
        if isinstance(n, ast.Expr):
            if isinstance(n.value, ast.Yield):
                return self.yielding(n.value, st)
            if isinstance(n.value, ast.YieldFrom):
                return self.delegate(n.value.value, st, n)
            v = self.ev(n.value, st)
            if v[0] == 'gen' and not self.is_generator(v[1]):
                return self.inline(v, st, n)
            return [('next', self.effects(n.value, st))]
        if isinstance(n, (ast.Assign, ast.AnnAssign)):
            if n.value is None:
                return [('next', st)]
            targets = n.targets if isinstance(n, ast.Assign) else [n.target]
            if isinstance(n.value, ast.Yield):
                return [(k, self.assign(targets[0], UNK, s)) for k, s in self.yielding(n.value, st)]
            if isinstance(n.value, ast.Call) and isinstance(n.value.func, ast.Name) and n.value.func.id == 'next':
                out = []
                for k, s in self.request(st, n):
                    out.append(('next', self.assign(targets[0], ('block',), s)) if k == 'block' else
                               ('next', self.assign(targets[0], ('c', None), s)) if len(n.value.args) > 1 else ('stop', s))
                return [*out, ('raise', st)]
            st2 = self.effects(n.value, st)
            if isinstance(n.value, ast.IfExp):
                out = []
                for b, s in self.branch(n.value.test, st2):
                    v = self.ev(n.value.body if b else n.value.orelse, s)
                    for t in targets:
                        s = self.assign(t, v, s)
                    out.append(('next', s))
                return out
            v = self.ev(n.value, st2)
            if v[0] == 'gen' and not self.is_generator(v[1]):
                out = []
                for k, s, r in self.inline_value(v, st2, n):
                    if k == 'next':
                        for t in targets:
                            s = self.assign(t, r, s)
                    out.append((k, s))
                return out
            if isinstance(n.value, ast.Tuple) and len(targets) == 1 and isinstance(targets[0], ast.Tuple) and len(targets[0].elts) == len(n.value.elts):
                vs = [self.ev(x, st2) for x in n.value.elts]
                for t, x in zip(targets[0].elts, vs):
                    st2 = self.assign(t, x, st2)
                return [('next', st2)]
            for t in targets:
                st2 = self.assign(t, v, st2)
            return [('next', st2)]
        if isinstance(n, ast.AugAssign):
            st2 = self.effects(n.value, st)
            if isinstance(n.target, ast.Name):
                a = st.get((self.depth, n.target.id))
                b = self.ev(n.value, st2)
                sgn = 1 if isinstance(n.op, ast.Add) else -1 if isinstance(n.op, ast.Sub) else 0
                v = UNK
                if sgn and b[0] == 'c' and isinstance(b[1], int):
                    v = ('served', a[1] - 1 + sgn * b[1]) if a[0] == 'cnt' else lin_add(a, sgn * b[1])
                    if a[0] == 'pos':
                        v = ('pos', a[1], a[2] + sgn * b[1])
                elif sgn and b[0] == 'num':
                    off = sgn * (b[1] if len(b) > 1 else 0)
                    if a[0] == 'pos':
                        v = ('pos', a[1] + sgn, a[2] + off)
                    elif a == ('cnt', 0):
                        v = ('pos', -1 + sgn, off)
                    elif a == ('c', 0) and st.served == '0':
                        v = ('pos', sgn, off)
                return [('next', st2.bind((self.depth, n.target.id), v))]
            return [('next', st2)]
        if isinstance(n, ast.Return):
            v = self.ev(n.value, st) if n.value is not None else ('c', None)
            if n.value is not None:
                st = self.effects(n.value, st)
            return [('return', st.bind((self.depth, '<return>'), v))]
        if isinstance(n, ast.Break):
            return [('break', st)]
        if isinstance(n, ast.Continue):
            return [('continue', st)]
        if isinstance(n, ast.Raise):
            return [('raise', st)]
        if isinstance(n, ast.If):
            out = []
            for v, s in self.branch(n.test, st):
                out += self.block(n.body if v else n.orelse, [s])
            return list(dict.fromkeys(out))
        if isinstance(n, ast.Match):
            return self.match(n, st)
        if isinstance(n, (ast.With,)):
            return self.block(n.body, [st])
        if isinstance(n, ast.While):
            return self.loop_while(n, st)
        if isinstance(n, ast.For):
            return self.loop_for(n, st)
        if isinstance(n, ast.Try):
            return self.trying(n, st)
        if isinstance(n, ast.Delete):
            return [('next', st)]
        raise GiveUp(f'{type(n).__name__} {n.lineno}')

    def match(self, n, st):
        subj = self.ev(n.subject, st)
        out, rest = [], [st]
        for c in n.cases:
            pats = c.pattern.patterns if isinstance(c.pattern, ast.MatchOr) else [c.pattern]
            hit = None
            if all(isinstance(p, ast.MatchValue) and isinstance(p.value, ast.Constant) for p in pats) and subj[0] == 'c':
                hit = subj[1] in [p.value.value for p in pats]
            elif isinstance(c.pattern, ast.MatchAs) and c.pattern.pattern is None:
                hit = True
            if hit is not False and c.guard is None:
                out += self.block(c.body, rest)
                if hit:
                    rest = []
                    break
            elif hit is not False:
                raise GiveUp('match')
        return out + [('next', s) for s in rest]

    def yielding(self, e, st):
        st = self.effects(e.value, st) if e.value is not None else st
        v = self.ev(e.value, st)
        st = self.give(v, st, e)
        self.premature(st, e)
        return [('next', st), ('raise', st)]

    def delegate(self, e, st, n):
        v = self.ev(e, st)
        if v == UNK and isinstance(e, ast.Call):
            v = self.call(e, st)
        if v[0] == 'gen':
            return self.inline(v, self.effects(e, st), n)
        if v == ('iter',):
            out, seen, todo = [], set(), [st]
            while todo:
                s = todo.pop()
                if s in seen:
                    continue
                seen.add(s)
                for k, s2 in self.request(s, n):
                    if k == 'block':
                        out.append(('raise', s2))
                        todo.append(self.give(('block',), s2, n))
                    else:
                        out.append(('next', s2))
            out.append(('raise', st))
            return list(dict.fromkeys(out))
        raise GiveUp(f'yield from {n.lineno}')

    def is_generator(self, name):
        m = self.cls.find_method(name)
        return any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(m.node))

    def inline_value(self, v, st, n):
        m = self.cls.find_method(v[1])
        if self.depth > 6:
            raise GiveUp('depth')
        args = m.node.args
        names = [a.arg for a in args.args][1:]
        vals = dict(zip(names, v[2]))
        vals.update({k: x for k, x in v[3] if k})
        st = st.set(env=st.env)
        save = self.me, self.func
        self.depth += 1
        self.me, self.func = args.args[0].arg, m
        try:
            s = st
            for a in names:
                s = s.bind((self.depth, a), vals.get(a, UNK))
            res = self.block(m.node.body, [s])
            out = []
            for k, r in res:
                ret = r.get((self.depth, '<return>'))
                r = r.set(env=tuple((kk, x) for kk, x in r.env if kk[0] < self.depth))
                out.append(('next' if k in ('next', 'return') else k, r, ret if k == 'return' else ('c', None)))
            return list(dict.fromkeys(out))
        finally:
            self.depth -= 1
            self.me, self.func = save

    def inline(self, v, st, n):
        return list(dict.fromkeys((k, s) for k, s, _ in self.inline_value(v, st, n)))

    def loop_while(self, n, st):
        out, seen, todo, exits = [], set(), [st], []
        while todo:
            s = todo.pop()
            if s in seen:
                continue
            seen.add(s)
            if len(seen) > LIMIT:
                raise GiveUp(f'loop {n.lineno}')
            for v, s2 in self.branch(n.test, s):
                if not v:
                    exits.append(s2)
                    continue
                for k, s3 in self.block(n.body, [s2]):
                    if k in ('next', 'continue'):
                        todo.append(s3)
                    elif k == 'break':
                        out.append(('next', s3))
                    else:
                        out.append((k, s3))
        out += self.block(n.orelse, exits) if exits else []
        return list(dict.fromkeys(out))

    def loop_for(self, n, st):
        it = self.ev(n.iter, st)
        st = self.effects(n.iter, st)
        enum = None
        if it[0] == 'enum':
            it, enum = it[1], it[2]
        out, exits = [], []
        if it == ('iter',):
            seen, todo = set(), [st]
            while todo:
                s = todo.pop()
                if s in seen:
                    continue
                seen.add(s)
                if len(seen) > LIMIT:
                    raise GiveUp(f'loop {n.lineno}')
                out.append(('raise', s))
                for k, s2 in self.request(s, n):
                    if k == 'done':
                        exits.append(s2)
                        continue
                    tgt = n.target
                    if enum is not None:
                        start = enum[1] if enum[0] == 'c' else None
                        if isinstance(tgt, ast.Tuple) and len(tgt.elts) == 2:
                            s2 = self.assign(tgt.elts[0], ('idx', start) if isinstance(start, int) else UNK, s2)
                            s2 = self.assign(tgt.elts[1], ('block',), s2)
                        else:
                            raise GiveUp('enumerate')
                    else:
                        s2 = self.assign(tgt, ('block',), s2)
                    for k3, s3 in self.block(n.body, [s2]):
                        if k3 in ('next', 'continue'):
                            todo.append(s3)
                        elif k3 == 'break':
                            out.append(('next', s3))
                        else:
                            out.append((k3, s3))
        elif it[0] == 'range' and len(it[1]) == 3 and it[1][0] == ('c', 0) and it[1][2] == ('num',) and isinstance(n.target, ast.Name) and st.served == '0':
            seen, todo = set(), [st]
            k0 = {('N',): 0}.get(it[1][1])
            if k0 is None:
                raise GiveUp('range')
            todo = [st]
            while todo:
                s = todo.pop()
                if s in seen:
                    continue
                seen.add(s)
                exits.append(s.set(ended='end'))
                s2 = s.bind((self.depth, n.target.id), ('pos', 0, 0)).set(full=None)
                for k3, s3 in self.block(n.body, [s2]):
                    if k3 in ('next', 'continue'):
                        todo.append(s3)
                    elif k3 == 'break':
                        out.append(('next', s3))
                    else:
                        out.append((k3, s3))
        elif it[0] == 'gen' and self.is_generator(it[1]) and len(n.body) == 1 and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Yield):
            return self.inline(it, st, n)
        else:
            raise GiveUp(f'for {n.lineno}')
        out += self.block(n.orelse, exits) if exits else []
        return list(dict.fromkeys(out))

    def trying(self, n, st):
        res = self.block(n.body, [st])
        out = []
        for k, s in res:
            if k == 'stop':
                h = [x for x in n.handlers if self.catches(x, 'StopIteration')]
                if h:
                    out += self.block(h[0].body, [s])
                    continue
            elif k == 'raise':
                for h in n.handlers:
                    if self.catches(h, None):
                        out += self.block(h.body, [s])
            elif k == 'next':
                out += self.block(n.orelse, [s])
                continue
            out.append((k, s))
        if n.finalbody:
            fin = []
            for k, s in out:
                for k2, s2 in self.block(n.finalbody, [s]):
                    fin.append((k if k2 == 'next' else k2, s2))
            out = fin
        return list(dict.fromkeys(out))

    @staticmethod
    def catches(h, name):
        if h.type is None:
            return True
        names = [dotted(x) or '' for x in (h.type.elts if isinstance(h.type, ast.Tuple) else [h.type])]
        if name:
            return any(x in (name, 'Exception', 'BaseException') for x in names)
        return any(x in ('Exception', 'BaseException', 'GeneratorExit') or x not in ('StopIteration', 'KeyError', 'AttributeError', 'IndexError', 'TypeError', 'ValueError')
                   for x in names)

    # whole runs --------------------------------------------------------------------------------------------------
    def run(self):
        m = self.cls.find_method('result')
        self.func = m
        self.me = m.node.args.args[0].arg
        num = m.node.args.args[1].arg
        st = St.make(entry=self.initial, content='none' if self.initial == 'absent' else 'old', env=(((0, num), ('num',)),), src='idle', delta=None,
                     first=None, stored=True, given=True, served='0', full=None, lost=False, ended=None, file=self.hasfile)
        ends = self.block(m.node.body, [st])
        for k, s in ends:
            self.rep.count('paths')
            if k == 'raise':
                self.at_interrupt(s, m.node)
            elif k in ('next', 'return'):
                self.at_end(s, m.node)
        return self.found

    def at_interrupt(self, s, n):
        if s.content == 'new' and s.entry == 'complete' and s.src != 'done':
            self.bad('premature', 'after an interruption the entry with partial data is marked complete', n)

    def at_end(self, s, n):
        if s.src == 'idle':
            if self.policy == 'none' or not self.hasfile:
                self.bad('idle', 'nothing is delivered although the source has data', n)
            elif self.initial != 'complete' or self.policy == 'overwrite':
                self.bad('idle', f'the source is never asked although the entry is {self.initial}; what an interrupted run left is taken for all data', n)
            elif s.ended != 'end':
                self.bad('short', 'rows at the end of a complete entry are not delivered', n)
            return
        if s.src == 'run':
            self.bad('stop', 'the generator ends before the source is exhausted', n)
        if self.initial == 'complete' and self.policy in ('all', 'individual', 'readonly') and self.hasfile:
            self.bad('ignored', 'a complete entry is not used', n)
        if s.content == 'new' and s.entry != 'complete':
            self.bad('unmarked', 'the entry is not marked complete although all data has been stored', n)
        if s.content == 'none' and self.policy in ('all', 'individual', 'overwrite') and s.served == '+':
            pass


def check(prog, rep):
    rep.rule('complete-only', 'the entry is marked complete only when the source is exhausted and every block received has been stored')
    rep.rule('serve-only-complete', 'an entry that is missing, unmarked or incomplete never replaces the source; a complete one does')
    rep.rule('no-gap', 'blocks delivered from an incomplete entry and blocks of the source follow each other without gap or repetition')
    for cls in prog.all_classes():
        m = cls.methods.get('result')
        if m is None or not any(isinstance(x, ast.Attribute) and x.attr == 'get_cache_file' for x in ast.walk(m.node)):
            continue
        rep.count('classes')
        for policy in POLICIES:
            for entry in ENTRIES:
                for hasfile in ((True, False) if policy == 'readonly' and entry == 'absent' else (True,)):
                    r = Run(prog, cls, policy, entry, rep, hasfile)
                    try:
                        found = r.run()
                    except GiveUp as e:
                        rep.count('given_up')
                        rep.notes.append(f'{cls.name} {r.scen}: not followed ({e})')
                        found = {k: v for k, v in r.found.items() if k == 'range'}
                    rep.count('scenarios')
                    rep.count('steps', r.steps)
                    for k, (msg, where, q) in found.items():
                        rep.viol('cache-run', f'{q}:{k}', f'{msg} [first seen with policy/entry {r.scen}]', where)
    rep.floor('classes', 1)
    rep.floor('steps', 60)
