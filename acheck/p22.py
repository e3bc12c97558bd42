"""P22: what does not fit is rejected in time."""

import ast

from .flow import Flow
from .model import Func, dotted, walk_no_nested

# class, entry, what the rejecting condition is about.  One condition (with the conditions around it) must speak of all of them.
DEMANDS = [
    ('BeamformerBase', '_get_result', ({'num_channels'}, '!=', {'num_mics'})),
    ('Calib', 'result', {'data'}),
    ('Calib', 'result', {'source'}),
    ('Calib', 'result', ({'data', 'channels'}, '!=', {'num_channels'})),
    ('Calib', 'result', ({'data', 'channels'}, '!=', {'num_channels', 'num_freqs'})),
    ('IRFFT', 'result', {'block_size'}),
    ('IRFFT', 'result', ({'block_size'}, '!=', {'num_freqs'})),
    ('Polygon', '__init__', ({'x'}, '!=', {'y'})),
    ('RectGrid', 'index', ({'x'}, '<', {'x_min'})),
    ('RectGrid', 'index', ({'x'}, '>', {'x_max'})),
    ('RectGrid', 'index', ({'y'}, '<', {'y_min'})),
    ('RectGrid', 'index', ({'y'}, '>', {'y_max'})),
    ('RectGrid3D', 'index', ({'x'}, '<', {'x_min'})),
    ('RectGrid3D', 'index', ({'x'}, '>', {'x_max'})),
    ('RectGrid3D', 'index', ({'y'}, '<', {'y_min'})),
    ('RectGrid3D', 'index', ({'y'}, '>', {'y_max'})),
    ('RectGrid3D', 'index', ({'z'}, '<', {'z_min'})),
    ('RectGrid3D', 'index', ({'z'}, '>', {'z_max'})),
    ('SampleSplitter', 'result', {'block_buffer'}),
    ('TimeSamples', 'result', ({'num_samples'}, '==', set())),
    ('TimeSamples', 'result', ({'calib', 'num_mics'}, '!=', {'num_channels'})),
    ('MaskedTimeSamples', 'result', ({'start'}, '>=', {'stop', 'num_samples_total'})),
    ('MaskedTimeSamples', 'result', ({'calib', 'num_mics'}, '!=', {'num_channels'})),
    ('UncorrelatedNoiseSource', 'result', {'seed', 'num_channels'}),
    ('SourceMixer', 'result', {'sources'}),
    ('SourceMixer', 'result', ({'sources', 'sample_freq'}, '!=', {'sample_freq'})),
    ('SourceMixer', 'result', ({'sources', 'num_channels'}, '!=', {'num_channels'})),
    ('SourceMixer', 'result', ({'sources', 'num_samples'}, '!=', {'num_samples'})),
    ('Mixer', 'result', ({'sources', 'sample_freq'}, '!=', {'sample_freq'})),
    ('Mixer', 'result', ({'sources', 'num_channels'}, '!=', {'num_channels'})),
    ('PowerSpectraImport', '_set_csm', {'csm'}),
    ('SteeringVector', '_set_ref', {'ref'}),
    ('RectGrid3D', '_set_increment', {'increment'}),
    ('RFFT', '_set_block_size', {'value'}),
    ('MaskedTimeOut', 'result', ({'start'}, '>=', {'stop', 'num_samples_total'})),
    ('ChannelMixer', 'result', {'weights', 'num_channels'}),
    ('ChannelMixer', 'result', ({'weights'}, '!=', {'num_channels'})),
    ('FiltOctave', '_get_sos', ({'band', 'sample_freq'}, '>', set())),
    ('FiltFiltOctave', '_get_sos', ({'band', 'sample_freq'}, '>', set())),
    ('TimeConvolve', 'result', ({'kernel'}, '>', set())),
    ('TimeConvolve', 'result', {'kernel', 'num_channels'}),
    ('TimeConvolve', 'result', ({'kernel'}, '!=', {'num_channels'})),
    ('WriteWAV', 'save', ({'channels'}, '==', set())),
    ('Trigger', '_get_trigger_data', ({'num_channels'}, '!=', set())),
    ('PointSpreadFunction', '_get_psf', {'calcmode'}),
]
# subclasses that define the entry anew because the demand has no meaning for them
NOT_FOR = {('BeamformerBase', '_get_result'): set(), ('TimeSamples', 'result'): {'MaskedTimeSamples'},
           ('MaskedTimeOut', 'result'): set(), ('SourceMixer', 'result'): set()}


def piece(e, defs):
    """the k-th of what slice(a, b).indices(n) returns is made from a (or b) and n"""
    if isinstance(e, ast.Subscript) and isinstance(e.value, ast.Name) and isinstance(e.slice, ast.Constant) and len(defs.get(e.value.id, ())) == 1:
        return bound(defs[e.value.id][0], e.slice.value)
    return None


def bound(c, k):
    if (isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr == 'indices' and isinstance(c.func.value, ast.Call)
            and dotted(c.func.value.func) == 'slice' and isinstance(k, int) and 0 <= k < len(c.func.value.args)):
        return [c.func.value.args[k], *c.args]
    return None


def names_in(e, defs, depth=0):
    out, todo = set(), [e]
    while todo:
        n = todo.pop()
        p = piece(n, defs)
        if p is not None:
            todo += p
            continue
        if isinstance(n, ast.Attribute):
            out.add(n.attr)
        elif isinstance(n, ast.Name):
            out.add(n.id)
            if n.id in defs and depth < 5:
                for d in defs[n.id]:
                    out |= names_in(d, defs, depth + 1)
        todo += ast.iter_child_nodes(n)
    return out


def definitions(fn, lookup=None):
    defs = {}

    def returned(c):
        """what a helper returns, and what its names are made from"""
        g = lookup(c) if lookup is not None and isinstance(c, ast.Call) else None
        rets = [x.value for x in walk_no_nested(g.node) if isinstance(x, ast.Return) and x.value is not None] if g is not None and not g.generator else []
        if rets:
            for k, v in definitions(g.node).items():
                defs.setdefault(k, []).extend(v)
        return rets

    for n in ast.walk(fn):
        if isinstance(n, ast.Assign):
            for t in n.targets:
                if isinstance(t, ast.Tuple) and bound(n.value, 0) is not None:
                    for i, k in enumerate(t.elts):
                        if isinstance(k, ast.Name):
                            b = bound(n.value, i)
                            defs.setdefault(k.id, []).append(ast.Tuple(b, ast.Load()) if b else n.value)
                    continue
                for v in returned(n.value) or [n.value]:
                    if isinstance(t, ast.Tuple) and isinstance(v, ast.Tuple) and len(t.elts) == len(v.elts):
                        pairs = list(zip(t.elts, v.elts))
                    else:
                        pairs = [(t, v)]
                    for a, b in pairs:
                        for k in ast.walk(a):
                            if isinstance(k, ast.Name) and isinstance(k.ctx, ast.Store):
                                defs.setdefault(k.id, []).append(b)
        elif isinstance(n, (ast.For, ast.comprehension)):
            count = isinstance(n.iter, ast.Call) and dotted(n.iter.func) == 'enumerate' and isinstance(n.target, ast.Tuple) and n.target.elts[0]
            for k in ast.walk(n.target):
                if isinstance(k, ast.Name):
                    # a counter begins with 0
                    defs.setdefault(k.id, []).append(ast.Constant(0) if k is count and len(n.iter.args) == 1 and not n.iter.keywords else n.iter)
        elif isinstance(n, ast.NamedExpr):
            defs.setdefault(n.target.id, []).append(n.value)
    return defs


RELATION = {'<': {'lt'}, '<=': {'lt', 'eq'}, '>': {'gt'}, '>=': {'gt', 'eq'}, '==': {'eq'}, '!=': {'lt', 'gt'}}
OPS = {ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>=', ast.Eq: '==', ast.NotEq: '!='}
TURN = {'lt': 'gt', 'gt': 'lt', 'eq': 'eq'}


class Predicate:
    """truth of conditions when the two sides of one demand are in a given relation and those of the other demands fit;
    conditions on anything else are free"""

    def __init__(self, demands, i):
        self.demands, self.i, self.matched = demands, i, False
        self.free, self.given = [], {}
        self.every = frozenset().union(*[x if isinstance(x, frozenset) else x[0] | x[2] for x in demands])

    def decides(self, conds, bad, good):
        """can the rest be such that exactly the violation of this demand makes the conditions true"""
        for rel in ('lt', 'eq', 'gt'):
            self.all(conds, rel)
        if not self.matched:
            return True
        free = list(dict.fromkeys(self.free))[:10]
        for bits in range(1 << len(free)):
            self.given = {k: bool(bits >> n & 1) for n, k in enumerate(free)}
            if all(self.all(conds, x) for x in bad) and not any(self.all(conds, x) for x in good):
                return True
        return False

    def all(self, conds, rel):
        return all([self.value(test, rel, defs) == pol for test, pol, defs in conds])

    def unknown(self, e):
        k = ast.unparse(e)
        self.free.append(k)
        return self.given.get(k, False)

    def value(self, e, rel, defs, depth=0):
        if isinstance(e, ast.BoolOp):
            v = [self.value(x, rel, defs, depth) for x in e.values]
            return all(v) if isinstance(e.op, ast.And) else any(v)
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return not self.value(e.operand, rel, defs, depth)
        if isinstance(e, ast.Compare):
            out, left = [], e.left
            for op, right in zip(e.ops, e.comparators):
                if isinstance(op, (ast.In, ast.NotIn)) and isinstance(right, (ast.Tuple, ast.List, ast.Set)) and right.elts:
                    hit = [self.atom(left, '==', x, rel, defs, ast.Compare(left, [ast.Eq()], [x])) for x in right.elts]
                    out.append(any(hit) == isinstance(op, ast.In))
                    left = right
                    continue
                out.append(self.atom(left, OPS.get(type(op)), right, rel, defs, e))
                left = right
            return all(out)
        if isinstance(e, ast.Name) and len(defs.get(e.id, ())) == 1 and depth < 4:
            d = defs[e.id][0]
            if isinstance(d, (ast.Compare, ast.BoolOp, ast.UnaryOp, ast.Call)):
                return self.value(d, rel, defs, depth + 1)
        if isinstance(e, ast.Call) and dotted(e.func) in ('any', 'all') and e.args and isinstance(e.args[0], (ast.GeneratorExp, ast.ListComp)):
            return self.value(e.args[0].elt, rel, defs, depth)
        if isinstance(e, ast.Call) and dotted(e.func) == 'bool' and e.args:
            return self.value(e.args[0], rel, defs, depth)
        if isinstance(e, ast.Constant):
            return bool(e.value)
        if isinstance(e, (ast.Name, ast.Attribute, ast.Call)) and not (isinstance(e, ast.Call) and dotted(e.func) in ('isinstance', 'hasattr', 'callable')):
            return self.atom(e, '!=', ast.Constant(0), rel, defs, e)
        return self.unknown(e)

    def atom(self, a, op, b, rel, defs, e):
        if op is None:
            return self.unknown(e)
        x, y = number(a, defs), number(b, defs)
        if x is not None and y is not None:
            return {'<': x < y, '<=': x <= y, '>': x > y, '>=': x >= y, '==': x == y, '!=': x != y}[op]
        if isinstance(b, ast.Constant) and b.value == 1 and op in ('<', '>='):
            b, op = ast.Constant(0), {'<': '<=', '>=': '>'}[op]
        if not isinstance(b, ast.Constant) or b.value is not None:
            d = self.demands[self.i]
            r = self.same(d, a, op, b, defs, rel)
            if r is not None:
                self.matched = True
                return r
            for k, d in enumerate(self.demands):
                if k != self.i and not isinstance(d, frozenset):
                    good = {'lt', 'eq', 'gt'} - RELATION[d[1]] - ({'lt'} if d[1] == '==' else set())
                    r = {self.same(d, a, op, b, defs, g) for g in good}
                    if len(r) == 1 and None not in r:
                        return r.pop()
            if isinstance(b, ast.Constant) and names_in(a, defs) & (self.demands[self.i][0] | self.demands[self.i][2]):
                # an ordinary value of the quantity itself
                return op in ('!=', '>', '>=')
        return self.unknown(e)

    def same(self, d, a, op, b, defs, rel):
        L, _, R = d
        na, nb = names_in(a, defs), names_in(b, defs)
        there = L <= na and (R <= nb if R else not nb & self.every)
        turned = L <= nb and (R <= na if R else not na & self.every)
        if there and turned:
            # both sides are made from the same things: go by what they are called
            turned = bool(L & names_in(b, {})) and not L & names_in(a, {})
            there = not turned
        if there:
            return rel in RELATION[op]
        if turned:
            return TURN[rel] in RELATION[op]
        return None


def number(e, defs):
    if isinstance(e, ast.Name) and len(defs.get(e.id, ())) == 1:
        e = defs[e.id][0]
    return e.value if isinstance(e, ast.Constant) and isinstance(e.value, (int, float)) else None


def following(s):
    p = getattr(s, '_parent', None)
    for f in ('body', 'orelse', 'finalbody'):
        b = getattr(p, f, None)
        if isinstance(b, list) and s in b:
            return b[b.index(s) + 1:]
    return []


class Must:
    """checks made on every path (intersection)"""

    def __init__(self, s=frozenset()):
        self.s = frozenset(s)

    def copy(self):
        return Must(self.s)

    def join(self, o):
        return Must(self.s & o.s)

    def __eq__(self, o):
        return self.s == o.s


class Checks(Flow):
    def __init__(self, prog, K, demands, setter=False):
        self.prog, self.K, self.demands = prog, K, demands
        self.points = []            # (node, facts) where something takes effect
        self.stack = []
        self.sub = {}
        self.seen = 0

    def start(self, func):
        self.func = func
        self.me = func.params[0] if func.params and func.cls is not None else None
        self.stack = [func.node]
        self.defs = definitions(func.node, lambda c: self.target(c, {})[0])
        self.gen = func.generator
        self.init = func.name == '__init__' or func.name.startswith('_set_')
        self.stack = [func.node]
        out = self.run(func.node, Must())
        if not self.gen and out.next is not None:
            self.points.append((func.node.body[-1], out.next.s))
        return self

    def mark(self, found, st, test=None):
        self.seen += 1
        # a way round a rejecting branch does not count when the test compares one side with something else
        st.s = st.s | {i for i in range(len(self.demands)) if self.meets(i, *found) and (test is None or isinstance(self.demands[i], frozenset) or not self.beside(test, self.demands[i]))}

    def beside(self, test, d):
        want = d[0] | d[2]
        for n in ast.walk(test):
            if isinstance(n, ast.Compare) and len(n.ops) == 1 and not any(isinstance(x, ast.Constant) for x in (n.left, n.comparators[0])):
                a, b = names_in(n.left, self.defs) & want, names_in(n.comparators[0], self.defs) & want
                if bool(a) != bool(b):
                    return True
        return False

    def meets(self, i, names, conds):
        d = self.demands[i]
        if isinstance(d, frozenset):
            return d <= names
        L, op, R = d
        if not L | R <= names:
            return False
        bad = RELATION[op]
        return Predicate(self.demands, i).decides(conds, bad, {'lt', 'eq', 'gt'} - bad - ({'lt'} if op == '==' else set()))

    def rejects(self, s, defs, rest=()):
        """for every raise in statement s: the names its conditions are about, and the conditions"""
        out = []

        def block(stmts, names, conds, defs):
            for x in stmts:
                visit(x, names, conds, defs)
                if isinstance(x, ast.If):
                    for side, pol in ((x.body, False), (x.orelse, True)):
                        if side and isinstance(side[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break)):
                            names = names | names_in(x.test, defs)
                            conds = conds + [(x.test, pol, defs)]

        def visit(x, names, conds, defs):
            if isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                return
            if isinstance(x, ast.Raise):
                out.append((names, conds))
            elif isinstance(x, ast.If):
                t = names | names_in(x.test, defs)
                block(x.body, t, conds + [(x.test, True, defs)], defs)
                block(x.orelse, t, conds + [(x.test, False, defs)], defs)
            elif isinstance(x, ast.For):
                if isinstance(x.iter, ast.Subscript) and isinstance(x.iter.slice, ast.Slice):
                    sl = x.iter.slice
                    if sl.upper is not None or sl.step is not None or not (sl.lower is None or isinstance(sl.lower, ast.Constant) and sl.lower.value in (0, 1)):
                        return
                block(x.body, names | names_in(x.iter, defs), conds, defs)
            elif isinstance(x, ast.Match):
                t = names | names_in(x.subject, defs)
                for c in x.cases:
                    block(c.body, t, conds, defs)
            elif isinstance(x, ast.Try):
                # a conversion that fails is a condition on what is converted
                for h in x.handlers:
                    t = set(names)
                    for k in x.body:
                        t |= names_in(k, defs)
                    block(h.body, t, conds, defs)
                block(x.body, names, conds, defs)
            elif isinstance(x, ast.With):
                block(x.body, names, conds, defs)
            elif isinstance(x, ast.Assert):
                out.append((names | names_in(x.test, defs), conds + [(x.test, False, defs)]))
            elif isinstance(x, (ast.Expr, ast.Assign, ast.AnnAssign, ast.AugAssign, ast.Return)) and x.value is not None:
                for c in ast.walk(x.value):
                    if isinstance(c, ast.Call):
                        g, d = self.target(c, defs)
                        if g is not None and not g.generator and any(isinstance(k, ast.Raise) for k in ast.walk(g.node)):
                            self.stack.append(g.node)
                            block(g.node.body, names, conds, d)
                            self.stack.pop()

        block([s, *rest], set(), [], defs)
        return out

    def target(self, call, defs):
        f = call.func
        g = None
        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and self.me is not None and f.value.id == self.me:
            name = f.attr
            if name.startswith('__') and not name.endswith('__') and self.func.cls is not None:
                g = self.K.find_method(name)
            else:
                g = self.K.find_method(name)
            args = list(zip(g.params if g is not None and 'staticmethod' in g.decorator_names() else g.params[1:], call.args)) if g is not None else []
        elif isinstance(f, ast.Name):
            r = self.prog.resolve_global(self.func.module, f.id)
            if r is not None and r[0] == 'func':
                g = r[1]
                args = list(zip(g.params, call.args))
        if g is None or g.node in self.stack or len(self.stack) > 6:
            return None, None
        d = definitions(g.node)
        for p, a in args:
            d.setdefault(p, []).append(a)
        for k in call.keywords:
            if k.arg:
                d.setdefault(k.arg, []).append(k.value)
        for p, a in args:
            for n in ast.walk(a):
                if isinstance(n, ast.Name) and n.id in defs and n.id not in d:
                    d[n.id] = defs[n.id]
        return g, d

    def stmt(self, s, st):
        if isinstance(s, (ast.If, ast.For, ast.Try, ast.Match, ast.Assert, ast.Expr, ast.Assign, ast.AnnAssign, ast.Return)) and not (isinstance(s, ast.If) and self.outcome(s)):
            found = self.rejects(s, self.defs)
        else:
            found = []
        if isinstance(s, ast.If) and found:
            # a condition counts for what follows it, whichever way it goes
            o = super().stmt(s, st)
            if o.next is not None:
                o.next = o.next.copy()
                for x in found:
                    self.mark(x, o.next)
            return o
        o = super().stmt(s, st)
        if found and o.next is not None:
            o.next = o.next.copy()
            for x in found:
                self.mark(x, o.next)
        return o

    def branch(self, test, st):
        a, b = super().branch(test, st)
        s = getattr(test, '_parent', None)
        if isinstance(s, ast.If) and s.test is test:
            # the way taken when the test of a rejecting branch fails has been through that test
            t = names_in(test, self.defs)
            for side, mine, other, pol in ((a, s.body, s.orelse, False), (b, s.orelse, s.body, True)):
                ends = bool(mine) and isinstance(mine[-1], (ast.Return, ast.Continue))
                if side is None or not (self.outcome(s) or ends):
                    continue
                other = [*other, *(following(s) if ends else [])]
                if other:
                    for names, conds in self.rejects(other[0], self.defs, other[1:]):
                        self.mark((names | t, [(test, pol, self.defs), *conds]), side, test)
        return a, b

    def outcome(self, s):
        return any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(s))

    def may_raise(self, s):
        return False

    def eval(self, e, st):
        for n in ast.walk(e):
            if isinstance(n, (ast.Yield, ast.YieldFrom)):
                self.points.append((n, st.s))
            elif isinstance(n, ast.Call):
                # super().entry() makes the checks of the base class
                f = n.func
                if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Call) and dotted(f.value.func) == 'super' and self.func.cls is not None:
                    mro = self.K.mro()
                    if self.func.cls in mro:
                        for c in mro[mro.index(self.func.cls) + 1:]:
                            if f.attr in c.methods:
                                sub = Checks(self.prog, self.K, self.demands).start(c.methods[f.attr])
                                if sub.points:
                                    st.s = st.s | frozenset.intersection(*[frozenset(p) for _, p in sub.points])
                                break

    def simple(self, s, st):
        for n in ast.walk(s):
            if isinstance(n, (ast.Yield, ast.YieldFrom)):
                self.points.append((n, st.s))
        if isinstance(s, (ast.Assign, ast.AugAssign, ast.AnnAssign)) and self.init:
            for t in s.targets if isinstance(s, ast.Assign) else [s.target]:
                if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == self.me:
                    self.points.append((s, st.s | self.converted(s)))

    def converted(self, s):
        """a store of a conversion whose failure is turned into a rejection is checked by the conversion itself"""
        p, c = getattr(s, '_parent', None), s
        out = set()
        while p is not None and not isinstance(p, ast.FunctionDef):
            if isinstance(p, ast.Try) and c in p.body and any(isinstance(x, ast.Raise) for h in p.handlers for b in h.body for x in ast.walk(b)):
                names = names_in(s.value, self.defs)
                out |= {i for i, d in enumerate(self.demands) if (d if isinstance(d, frozenset) else d[0] | d[2]) <= names}
            elif isinstance(p, ast.If):
                q = p
                # a branch taken only when the test of a rejecting conditional allows it
                if c in p.body or c in p.orelse:
                    top = p
                    while isinstance(getattr(top, '_parent', None), ast.If) and top in top._parent.orelse:
                        top = top._parent
                    if any(isinstance(x, ast.Raise) for x in ast.walk(top)):
                        names = set()
                        while isinstance(q, ast.If):
                            names |= names_in(q.test, self.defs)
                            if q is top:
                                break
                            q = q._parent
                        out |= {i for i, d in enumerate(self.demands) if (d if isinstance(d, frozenset) else d[0] | d[2]) <= names}
            p, c = getattr(p, '_parent', None), p
        return out

    def on_return(self, s, st):
        if not self.gen and len(self.stack) == 1:
            self.points.append((s, st.s | (self.converted(s) if s.value is not None else frozenset())))


def check_demands(prog, rep):
    rep.rule('rejected-first', 'on every path, before the first block is handed out, the result returned or the value stored, a condition on the named inputs can reject them')
    groups = {}
    for cls, entry, names in DEMANDS:
        groups.setdefault((cls, entry), []).append((frozenset(names[0]), names[1], frozenset(names[2])) if isinstance(names, tuple) else frozenset(names))
    for (cname, entry), demands in groups.items():
        C = prog.classes.get(cname)
        if C is None or C.find_method(entry) is None:
            rep.viol('rejected-first', f'{cname}.{entry}', f'{cname}.{entry} does not exist any more, so nothing rejects what does not fit', cname)
            continue
        done = set()
        for K in prog.subclasses(C):
            f = K.find_method(entry)
            if f is None or f.node in done or K.name in NOT_FOR.get((cname, entry), ()):
                continue
            done.add(f.node)
            if K is not C and 'abstractmethod' in f.decorator_names():
                continue
            ck = Checks(prog, K, demands).start(f)
            for i, d in enumerate(demands):
                rep.count('demands')
                bad = [n for n, s in ck.points if i not in s]
                if not ck.points:
                    continue
                if bad:
                    n = bad[0]
                    w = sorted(d) if isinstance(d, frozenset) else sorted(d[0] | d[2])
                    how = '' if isinstance(d, frozenset) else f' ({"/".join(sorted(d[0]))} {d[1]} {"/".join(sorted(d[2])) or "constant"})'
                    rep.viol('rejected-first', f'{f.qual}:{"+".join(w)}{"" if isinstance(d, frozenset) else ":" + d[1]}',
                             f'reaches line {n.lineno} without a condition on {", ".join(w)} that rejects what does not fit{how}', f'{f.module.rel}:{n.lineno} {f.qual}')
    rep.floor('demands', 25)


# ---------------------------------------------------------------- atomic assignments
class Atomic(Flow):
    """may something have been stored when an exception leaves a setter"""

    def __init__(self, C, f, rep, typed):
        self.C, self.f, self.rep, self.typed = C, f, rep, typed
        self.me = f.params[0]
        self.param = set(f.params[1:])
        self.tainted = set(self.param)

    def viol(self, n, msg):
        self.rep.viol('atomic', f'{self.f.qual}:{ast.unparse(n)[:40]}', msg, f'{self.f.module.rel}:{n.lineno} {self.f.qual}')

    def from_param(self, e):
        return any(isinstance(n, ast.Name) and n.id in self.tainted for n in ast.walk(e))

    def risky(self, e):
        """a sub expression whose failure depends on the assigned value"""
        for n in ast.walk(e):
            if isinstance(n, ast.Subscript) and isinstance(n.value, ast.Name) and n.value.id in self.param and not isinstance(n.slice, ast.Slice):
                return n
            if isinstance(n, ast.Call) and (dotted(n.func) or '').split('.')[-1] in ('float', 'int', 'array', 'asarray', 'complex', 'validate_trait', 'len', 'absolute') and any(self.from_param(a) for a in n.args):
                return n
        return None

    def eval(self, e, st):
        if st.s and 'stored' in st.s:
            r = self.risky(e)
            if r is not None:
                self.viol(r, f'{ast.unparse(r)} may reject the value after something has already been stored: the object is left half changed')

    def simple(self, s, st):
        if isinstance(s, (ast.Assign, ast.AnnAssign, ast.AugAssign)) and s.value is not None:
            self.eval(s.value, st)
            targets = s.targets if isinstance(s, ast.Assign) else [s.target]
            if isinstance(s.value, ast.Tuple) and self.from_param(s.value) and any(isinstance(t, ast.Tuple) for t in targets):
                pass
            for t in targets:
                for k in (t.elts if isinstance(t, ast.Tuple) else [t]):
                    if isinstance(k, ast.Attribute) and isinstance(k.value, ast.Name) and k.value.id == self.me:
                        tr = self.C.find_trait(k.attr)
                        if 'stored' in st.s and tr is not None and tr.kind not in (None, 'Any', 'Property') and self.from_param(s.value) and not self.checked(s.value):
                            self.viol(s, f'{k.attr} may reject the value after something has already been stored: the object is left half changed')
                        st.s = st.s | {'stored'}
                    elif isinstance(k, ast.Name) and self.from_param(s.value):
                        if not self.checked(s.value):
                            self.tainted.add(k.id)
                        else:
                            self.tainted.discard(k.id)
        elif isinstance(s, ast.Expr):
            self.eval(s.value, st)

    def checked(self, e):
        """a value that has been converted or validated is accepted by the trait"""
        if self.typed and isinstance(e, ast.Name) and e.id in self.param:
            return True
        return any(isinstance(n, ast.Call) and (dotted(n.func) or '').split('.')[-1] in ('float', 'int', 'validate_trait', 'array', 'asarray', 'bool', 'str') for n in ast.walk(e))

    def on_raise(self, s, st):
        if 'stored' in st.s and not self.in_handler(s):
            self.viol(s, 'a value is rejected after something has already been stored: the object is left half changed')

    def in_handler(self, s):
        return False

    def may_raise(self, s):
        return False


class May(Must):
    def copy(self):
        return May(self.s)

    def join(self, o):
        return May(self.s | o.s)


def check_atomic(prog, rep):
    rep.rule('atomic', 'a setter stores nothing before everything that can reject the value has been done')
    for C in prog.all_classes():
        for f in C.method_list:
            if not f.name.startswith('_set_') or len(f.params) < 2:
                continue
            t = C.find_trait(f.name[5:])
            if t is None:
                continue
            rep.count('setters')
            typed = t.call is not None and bool(t.call.args)
            Atomic(C, f, rep, typed).run(f.node, May())
    rep.floor('setters', 12)


# ---------------------------------------------------------------- validators in use
def check_validators(prog, rep):
    rep.rule('validator-used', 'every method whose only purpose is to reject what does not fit is called or listens to changes')
    used = set()
    for m in prog.modules.values():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
                used.add(n.attr)
    for C in prog.all_classes():
        for f in C.method_list:
            raises = [n for n in walk_no_nested(f.node) if isinstance(n, ast.Raise)]
            if not raises or not f.name.startswith('_') or f.name.startswith(('_get_', '_set_')) or f.name.startswith('__') and f.name.endswith('__') or f.generator:
                continue
            rep.count('validators')
            if f.name in used or f.decorator('on_trait_change') is not None or f.decorator('observe') is not None:
                continue
            if f.name.startswith('_validate_') and C.find_trait(f.name[10:]) is not None or f.name.endswith(('_changed', '_default', '_fired')):
                continue
            if any('observe' in ast.unparse(d) or 'property' in ast.unparse(d) for d in f.decorators):
                continue
            rep.viol('validator-used', f.qual, f'{f.name} is never called: nothing is rejected', f.where)


def check_alternatives(prog, rep):
    rep.rule('each-alone', 'the conditions an assigned value has to meet are demanded one by one: a value that misses only one of them is rejected')
    for C in prog.all_classes():
        for f in C.methods.values():
            if not f.name.startswith('_set_') or len(f.params) < 2:
                continue
            for n in walk_no_nested(f.node):
                if not (isinstance(n, ast.If) and n.body and isinstance(n.body[-1], ast.Raise)):
                    continue
                rep.count('setter_conditions')
                t = n.test
                if isinstance(t, ast.BoolOp) and isinstance(t.op, ast.And) and all(
                        isinstance(v, ast.Compare) and isinstance(v.ops[0], ast.NotEq) and f.params[1] in {x.id for x in ast.walk(v) if isinstance(x, ast.Name)} for v in t.values):
                    rep.viol('each-alone', f'{f.qual}:{ast.unparse(t)[:60]}', f'{f.qual} accepts a value that misses only one of the conditions of {ast.unparse(t)}', f'{f.module.rel}:{n.lineno} {f.qual}')


def check(prog, rep):
    check_alternatives(prog, rep)
    check_demands(prog, rep)
    check_atomic(prog, rep)
    check_validators(prog, rep)
    rep.sample({'rule': 'rejected-first', 'demands': len(DEMANDS)})
