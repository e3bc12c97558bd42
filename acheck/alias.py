"""Alias and effect analysis: who holds an array, and who writes into it.

Every local is mapped to tags: ``blk`` (block handed out by an upstream generator), ``stale`` (such a block after the next one was
requested), ``cfg`` (array held by a trait or a cached property), ``par`` (argument), ``gen`` (generator), ``box`` (container holding
something), ``obj`` (self or a typed object below it), ``cont`` (a container that is not an array).
"""

import ast

from .flow import Flow, MapState
from .model import const_str, dotted

EMPTY = frozenset()
VIEW_ATTR = {'T', 'real', 'imag', 'mT', 'flat'}
META_ATTR = {'shape', 'size', 'ndim', 'dtype', 'itemsize', 'nbytes', 'strides'}
VIEW_METHODS = {'reshape', 'view', 'ravel', 'squeeze', 'transpose', 'swapaxes', 'diagonal'}
VIEW_FUNCS = {'asarray', 'asanyarray', 'ascontiguousarray', 'asfortranarray', 'atleast_1d', 'atleast_2d', 'atleast_3d', 'squeeze', 'reshape',
              'transpose', 'swapaxes', 'ravel', 'broadcast_to', 'moveaxis', 'rollaxis', 'expand_dims', 'real', 'imag', 'flip', 'flipud', 'fliplr',
              'rot90', 'require', 'diagonal', 'iter', 'asarray_chkfinite'}
INPLACE_METHODS = {'sort', 'fill', 'resize', 'put', 'itemset', 'partition'}
INPLACE_ARG0 = {'copyto', 'putmask', 'place', 'put', 'fill_diagonal', 'put_along_axis', 'shuffle'}
BINARY_UFUNC = {'add', 'subtract', 'multiply', 'divide', 'true_divide', 'floor_divide', 'power', 'maximum', 'minimum', 'mod', 'remainder', 'fmax', 'fmin', 'arctan2', 'hypot'}
UNARY_UFUNC = {'exp', 'log', 'log10', 'sqrt', 'abs', 'absolute', 'negative', 'conj', 'conjugate', 'sin', 'cos', 'square', 'sign', 'floor', 'ceil', 'reciprocal', 'log2'}
ADDERS = {'append', 'appendleft', 'extend', 'insert', 'add', 'put', 'put_nowait', 'setdefault', 'update', 'push', 'extendleft'}
CONSUMERS = {'list', 'tuple', 'sorted', 'deque', 'set', 'dict'}
CREATORS = {'zeros', 'ones', 'empty', 'array', 'full', 'arange', 'linspace', 'concatenate', 'zeros_like', 'ones_like', 'empty_like', 'stack',
            'vstack', 'hstack', 'cumsum', 'where', 'identity', 'eye', 'mgrid', 'fft', 'ifft', 'rfft', 'irfft', 'dot', 'cross', 'tile', 'repeat',
            'delete', 'append', 'outer', 'fftfreq', 'rfftfreq', 'asarray', 'inv', 'diag', 'logspace', 'interp', 'meshgrid', 'flatnonzero', 'convolve', 'atleast_1d', 'atleast_2d', 'atleast_3d'}


SCALAR_FUNCS = {'int', 'len', 'argmin', 'argmax', 'searchsorted', 'floor', 'ceil', 'round', 'min', 'max', 'slice'}
CONTAINER_CHANGES = {'append', 'extend', 'insert', 'update', 'setdefault', 'pop', 'popitem', 'clear', 'remove', 'sort', 'reverse'}


def keeps_buffer(node):
    """the generator yields views of a buffer of its own whose contents it uses again"""
    ys = set()
    for n in ast.walk(node):
        if isinstance(n, ast.Yield) and isinstance(n.value, ast.Subscript) and isinstance(n.value.value, ast.Name):
            ys.add((n.value.value.id, id(n.value)))
    for name, _ in ys:
        for n in ast.walk(node):
            if isinstance(n, ast.Assign) and not any(isinstance(x, ast.Name) and x.id == name for t in n.targets if isinstance(t, ast.Name) for x in [t]) \
                    and any(isinstance(x, ast.Subscript) and isinstance(x.value, ast.Name) and x.value.id == name for x in ast.walk(n.value)):
                return True
    return False


class St(MapState):
    pass


class Summary:
    __slots__ = ('mutates', 'returns', 'yields')

    def __init__(self):
        self.mutates, self.returns, self.yields = {}, frozenset(), frozenset()


class Engine:
    """Summaries of all functions (fixpoint), findings through a callback."""

    def __init__(self, prog, R):
        self.prog, self.R = prog, R
        self.sums = {}
        self.genattrs = set()
        self.funcs = []
        from .p24 import all_funcs

        self.funcs = [(f, c, q) for f, c, q in all_funcs(prog)]
        for _ in range(4):
            before = {k: (dict(s.mutates), s.returns, s.yields) for k, s in self.sums.items()}
            for f, c, q in self.funcs:
                Alias(self, f, c, q).go()
            if before == {k: (dict(s.mutates), s.returns, s.yields) for k, s in self.sums.items()}:
                break

    def summary(self, node):
        return self.sums.setdefault(id(node), Summary())

    def arrayish(self, C, name):
        t = C.find_trait(name)
        if t is None:
            return False
        if t.kind in ('CArray', 'Array', 'ArrayOrNone'):
            return True
        if t.is_property:
            if self.returns_array(C, C.find_method(f'_get_{name}'), name):
                return True
            # what an abstract class declares and its subclasses make
            base = C.find_method(f'_get_{name}')
            return base is not None and 'abstractmethod' in base.decorator_names() and any(
                self.returns_array(K, K.methods[f'_get_{name}'], name) for K in self.prog.subclasses(C) if f'_get_{name}' in K.methods and K is not C)
        if t.kind == 'Any':
            # used as an array
            return any(isinstance(n, ast.Attribute) and n.attr == 'shape' and isinstance(n.value, ast.Attribute) and n.value.attr == name and isinstance(n.value.value, ast.Name) and
                       g.params and n.value.value.id == g.params[0] for K in C.mro() for g in K.method_list for n in ast.walk(g.node))
        return False

    def returns_array(self, C, g, name, depth=0):
        if g is None or depth > 4:
            return False
        loc = {}
        for n in ast.walk(g.node):
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                loc.setdefault(n.targets[0].id, []).append(n.value)

        def arr(e, d=0):
            if d > 4:
                return False
            if isinstance(e, ast.Call):
                # an object whose elements are arrays it holds
                K = self.prog.class_of_expr(e.func, g.module)
                if K is not None and K.find_method('__getitem__') is not None:
                    return True
            if isinstance(e, ast.Subscript) and isinstance(e.value, ast.Call):
                return arr(e.value, d + 1)
            if isinstance(e, ast.Tuple):
                return any(arr(x, d + 1) for x in e.elts)
            if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and isinstance(e.func.value, ast.Name) and e.func.value.id == 'self' and C.find_method(e.func.attr) is not None:
                return self.returns_array(C, C.find_method(e.func.attr), name, depth + 1)
            if isinstance(e, ast.Call):
                fn = (dotted(e.func) or '').split('.')[-1]
                if isinstance(e.func, ast.Attribute) and e.func.attr in ('copy', 'reshape', 'astype', 'T'):
                    return arr(e.func.value, d + 1)
                return fn in CREATORS
            if isinstance(e, ast.BinOp):
                return arr(e.left, d + 1) or arr(e.right, d + 1)
            if isinstance(e, ast.Name):
                return any(arr(v, d + 1) for v in loc.get(e.id, []))
            if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and e.value.id == 'self':
                return self.arrayish(C, e.attr) if e.attr != name else False
            return False
        return any(isinstance(n, ast.Return) and n.value is not None and arr(n.value) for n in ast.walk(g.node))


class Alias(Flow):
    MAX_ITER = 8

    def __init__(self, eng, func, cls, qual, report=None):
        self.eng, self.prog, self.R = eng, eng.prog, eng.R
        self.func, self.cls, self.qual = func, cls, qual
        self.report = report or (lambda *a: None)
        self.sum = eng.summary(func.node)
        self.counts = {'stores': 0, 'requests': 0}
        self.self = func.params[0] if cls is not None and func.params and not ({'staticmethod'} & set(func.decorator_names())) else None
        self.loopidx = set()
        self.suppress = 0

    def go(self):
        st = St()
        for p in self.func.params + self.func.kwonly:
            st.d[p] = frozenset([('par', p)])
        if self.self:
            st.d[self.self] = frozenset([('obj', ())])
        self.run(self.func.node, st)
        return self

    def branch(self, test, st):
        a, b = super().branch(test, st)
        if isinstance(test, ast.Attribute) and isinstance(test.value, ast.Name) and test.value.id == self.self:
            # an option that has only one value
            vals = set()
            for K in self.prog.subclasses(self.cls):
                t = K.find_trait(test.attr)
                v = t.enum_values() if t is not None and t.kind == 'Enum' else None
                vals.add(bool(v[0]) if v is not None and len(v) == 1 else None)
            if vals == {False}:
                a = None
            elif vals == {True}:
                b = None
        return a, b

    # ------------------------------------------------------------ values
    def attr_tags(self, path):
        C = self.cls
        own = len(path) == 1
        K = C if own else self.R.typeof(C, path[:-1])
        if K is None:
            return EMPTY
        name = path[-1]
        if any((k.name, name) in self.eng.genattrs for k in K.mro()):
            return frozenset([('gen', f'attr {name}')])
        if self.R.typeof(C, path) is not None:
            return frozenset([('obj', path)])
        t = K.find_trait(name)
        for _ in range(4):
            if t is not None and t.kind == 'Delegate':
                K2 = self.R.typeof(K, (const_str(t.arg(0)),))
                nm = const_str(t.arg(1)) if t.arg(1) is not None else t.name
                own = False
                K, t = K2, (K2.find_trait(nm) if K2 else None)
                name = nm
        if t is None:
            return EMPTY
        where = '.'.join(path)
        if t.is_property:
            g = K.find_method(f'_get_{name}')
            if g is None:
                return EMPTY
            if g.decorator('cached_property') is not None or g.decorator('property_depends_on') is not None:
                return frozenset([('cfg', f'cached property {where}', self.eng.arrayish(K, name))])
            return frozenset(('cfg', x[1], x[2]) for x in self.eng.summary(g.node).returns if x[0] == 'cfg')
        if t.element_class(self.prog) is not None or t.kind in ('List', 'CList', 'Dict') and t.element_class(self.prog):
            return frozenset([('box', ('obj', path + ('*',)))])
        if name.startswith('_') and own:
            return EMPTY
        if t.kind in ('CArray', 'Array', 'Any', 'Property', 'ArrayOrNone', 'Trait', 'Union', 'Either', 'List', 'CList', 'Dict', 'Tuple'):
            return frozenset([('cfg', f'trait {where}', t.kind in ('CArray', 'Array') or t.kind == 'Any' and self.eng.arrayish(K, name))])
        return EMPTY

    def tags(self, e, st):
        if e is None or isinstance(e, (ast.Constant, ast.BinOp, ast.UnaryOp, ast.Compare, ast.JoinedStr, ast.Lambda)):
            return EMPTY
        if isinstance(e, ast.Name):
            return st.d.get(e.id, EMPTY)
        if isinstance(e, ast.Attribute):
            base = self.tags(e.value, st)
            if e.attr in META_ATTR:
                return EMPTY
            out = set()
            for t in base:
                if t[0] == 'obj':
                    out |= self.attr_tags(t[1] + (e.attr,))
                elif e.attr in VIEW_ATTR:
                    out.add(t)
            return frozenset(out)
        if isinstance(e, ast.Subscript):
            base = self.tags(e.value, st)
            out = set()
            basic = self.basic(e.slice, st)
            for t in base:
                if t[0] == 'box':
                    out.add(t if isinstance(e.slice, ast.Slice) else t[1])
                elif t[0] in ('blk', 'stale', 'cfg', 'par') and basic:
                    out.add(t)
            return frozenset(out)
        if isinstance(e, ast.IfExp):
            return self.tags(e.body, st) | self.tags(e.orelse, st)
        if isinstance(e, ast.BoolOp):
            return frozenset().union(*[self.tags(v, st) for v in e.values])
        if isinstance(e, ast.NamedExpr):
            return self.tags(e.value, st)
        if isinstance(e, ast.Starred):
            return self.tags(e.value, st)
        if isinstance(e, (ast.Tuple, ast.List, ast.Set)):
            return frozenset([('cont',)]) | frozenset(('box', t) for x in e.elts for t in self.tags(x, st) if t[0] in ('blk', 'stale', 'gen', 'cfg', 'obj', 'par'))
        if isinstance(e, ast.Dict):
            return frozenset([('cont',)]) | frozenset(('box', t) for x in e.values for t in self.tags(x, st) if t[0] in ('blk', 'stale', 'gen', 'cfg', 'par'))
        if isinstance(e, (ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp)):
            s2 = st.copy()
            self.suppress += 1
            for g in e.generators:
                self.bind_iter(g.target, g.iter, s2)
            self.suppress -= 1
            elt = e.value if isinstance(e, ast.DictComp) else e.elt
            return frozenset([('cont',)]) | frozenset(('box', t) for t in self.tags(elt, s2) if t[0] in ('blk', 'stale', 'gen', 'cfg', 'obj', 'par'))
        if isinstance(e, ast.Call):
            return self.call_tags(e, st)
        return EMPTY

    def basic(self, s, st):
        if isinstance(s, ast.Slice):
            return True
        if isinstance(s, ast.Constant):
            return True
        if isinstance(s, ast.UnaryOp):
            return self.basic(s.operand, st)
        if isinstance(s, ast.Tuple):
            if all(isinstance(x, (ast.Constant, ast.UnaryOp)) and not (isinstance(x, ast.Constant) and x.value in (None, Ellipsis)) for x in s.elts):
                return len(s.elts) == 1
            return all(self.basic(x, st) for x in s.elts)
        if isinstance(s, ast.Name):
            if s.id in self.loopidx or s.id == 'newaxis':
                return True
            d = self.defs().get(s.id)
            return bool(d) and all(isinstance(x, ast.Call) and (dotted(x.func) or '').split('.')[-1] in SCALAR_FUNCS for x in d)
        if isinstance(s, ast.Attribute):
            return s.attr in ('newaxis', 'channels')
        if isinstance(s, ast.BinOp):
            return all(self.basic(x, st) for x in (s.left, s.right))
        if isinstance(s, ast.Call):
            return dotted(s.func) == 'slice' or (dotted(s.func) or '').split('.')[-1] in SCALAR_FUNCS
        return False

    def defs(self):
        if not hasattr(self, '_defs'):
            self._defs = {}
            for n in ast.walk(self.func.node):
                if isinstance(n, ast.Assign):
                    for t in n.targets:
                        for x in ast.walk(t):
                            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                                self._defs.setdefault(x.id, []).append(n.value if x is t else None)
                elif isinstance(n, (ast.AugAssign, ast.For, ast.comprehension, ast.NamedExpr)):
                    for x in ast.walk(n.target):
                        if isinstance(x, ast.Name):
                            self._defs.setdefault(x.id, []).append(None)
        return self._defs

    def callees(self, call, st):
        """[(Func, {param: arg expr}, receiver)]"""
        f = call.func
        out = []
        if isinstance(f, ast.Name):
            r = self.prog.resolve_global(self.func.module, f.id)
            if r and r[0] == 'func':
                out = [(r[1], 0)]
            if f.id not in self.func.module.functions:
                for n in self.func.node.body:
                    if isinstance(n, ast.FunctionDef) and n.name == f.id:
                        from .model import Func
                        out = [(Func(self.func.module, n), 0)]
        elif isinstance(f, ast.Attribute):
            if isinstance(f.value, ast.Call) and dotted(f.value.func) == 'super' and self.cls:
                g = self.cls.find_method(f.attr, after=self.cls)
                if g:
                    out = [(g, 1)]
            else:
                done = False
                for t in self.tags(f.value, st):
                    if t[0] == 'obj':
                        K = self.R.typeof(self.cls, t[1]) if t[1] else self.cls
                        done = True
                        if K is not None:
                            seen = set()
                            for S in [K] + self.prog.subclasses(K):
                                g = S.find_method(f.attr)
                                if g is not None and id(g.node) not in seen:
                                    seen.add(id(g.node))
                                    out.append((g, 0 if 'staticmethod' in g.decorator_names() else 1))
                if not done:
                    r = self.prog.resolve_dotted(self.func.module, f)
                    if r and r[0] == 'func':
                        out = [(r[1], 0)]
        res = []
        for g, off in out:
            b = {}
            for i, a in enumerate(call.args):
                if isinstance(a, ast.Starred):
                    break
                if i + off < len(g.params):
                    b[g.params[i + off]] = a
            for k in call.keywords:
                if k.arg:
                    b[k.arg] = k.value
            res.append((g, b))
        return res

    def call_tags(self, e, st):
        fn = (dotted(e.func) or '').split('.')[-1]
        a0 = e.args[0] if e.args else None
        if isinstance(e.func, ast.Attribute):
            m = e.func.attr
            if m == 'result' and dotted(e.func) != 'super.result':
                gid = f'{e.lineno}:{e.col_offset}'
                return frozenset([('gen', gid)])
            bt = self.tags(e.func.value, st)
            if m in VIEW_METHODS and not any(t[0] == 'obj' for t in bt):
                r = self.prog.resolve_dotted(self.func.module, e.func)
                if not (r and r[0] == 'ext'):
                    return frozenset(t for t in bt if t[0] in ('blk', 'stale', 'cfg', 'par'))
            if m == 'astype' and any(k.arg == 'copy' and isinstance(k.value, ast.Constant) and k.value.value is False for k in e.keywords):
                return bt
            if m in ('pop', 'popleft', 'get', '__getitem__', '__next__') and any(t[0] in ('box', 'gen') for t in bt):
                return frozenset(t[1] if t[0] == 'box' else ('blk', t[1]) for t in bt if t[0] in ('box', 'gen'))
        if fn == 'next' and a0 is not None:
            return frozenset(('blk', t[1]) for t in self.tags(a0, st) if t[0] == 'gen')
        if fn in VIEW_FUNCS and a0 is not None:
            return self.tags(a0, st)
        if fn == 'array' and a0 is not None and any(k.arg == 'copy' and isinstance(k.value, ast.Constant) and k.value.value is False for k in e.keywords):
            return self.tags(a0, st)
        if fn in ('list', 'tuple', 'reversed', 'sorted', 'deque', 'enumerate', 'islice') and isinstance(e.func, (ast.Name, ast.Attribute)):
            src = self.tags(a0, st) if a0 is not None else EMPTY
            g = frozenset(t for t in src if t[0] == 'gen')
            if fn in ('list', 'tuple', 'sorted', 'deque') and g:
                return frozenset([('cont',)]) | frozenset(('box', ('blk', t[1])) for t in g)
            return src | frozenset([('cont',)]) if fn in ('list', 'tuple', 'sorted', 'deque', 'reversed') else src
        out = set()
        for g, b in self.callees(e, st):
            s = self.eng.summary(g.node)
            if g.generator:
                ys = {t for t in s.yields if t[0] == 'blk'}
                if ys or keeps_buffer(g.node):
                    out.add(('gen', f'{e.lineno}:{e.col_offset}'))
                continue
            for t in s.returns:
                if t[0] == 'par' and t[1] in b:
                    out |= self.tags(b[t[1]], st)
                elif t[0] == 'cfg':
                    out.add(t)
                elif t[0] == 'gen':
                    out.add(('gen', f'{e.lineno}:{e.col_offset}'))
        return frozenset(out)

    # ------------------------------------------------------------ effects
    def mutate(self, tags, node, how):
        self.counts['stores'] += 1
        if self.suppress:
            return
        for t in tags:
            if t[0] in ('blk', 'stale'):
                self.report('block-mutation', node, f'{how} changes a block received from the source in place', self)
            elif t[0] == 'cfg':
                if how.startswith('augmented') and not t[2]:
                    continue
                self.report('array-mutation', node, f'{how} changes the array held by {t[1]} in place', self)
            elif t[0] == 'par':
                self.sum.mutates.setdefault(t[1], how)

    def request(self, gid, st, collection=False):
        """the next block of gid is requested: earlier blocks are no longer valid"""
        self.counts['requests'] += 1
        if collection:
            return
        for k, v in list(st.d.items()):
            if any(t in (('blk', gid), ('box', ('blk', gid))) for t in v):
                st.d[k] = frozenset(('stale', gid) if t == ('blk', gid) else (('box', ('stale', gid)) if t == ('box', ('blk', gid)) else t) for t in v)

    def eval(self, e, st):
        self.visit(e, st)

    def visit(self, e, st):
        if e is None or isinstance(e, ast.Lambda):
            return
        if isinstance(e, ast.Attribute) and e.attr in META_ATTR and isinstance(e.value, (ast.Name, ast.Subscript)):
            if isinstance(e.value, ast.Subscript):
                self.visit(e.value.slice, st)
            return
        if isinstance(e, ast.Name):
            if isinstance(e.ctx, ast.Load):
                for t in st.d.get(e.id, EMPTY):
                    if (t[0] == 'stale' or (t[0] == 'box' and t[1][0] == 'stale')) and not self.suppress:
                        self.report('block-retention', e, f'{e.id} still refers to a block of the source after the next block was requested', self)
            return
        if isinstance(e, (ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp)):
            s2 = st.copy()
            for g in e.generators:
                self.visit(g.iter, s2)
                self.bind_iter(g.target, g.iter, s2)
                for c in g.ifs:
                    self.visit(c, s2)
            for part in ([e.key, e.value] if isinstance(e, ast.DictComp) else [e.elt]):
                self.visit(part, s2)
            if not isinstance(e, ast.GeneratorExp):
                elt = e.value if isinstance(e, ast.DictComp) else e.elt
                gids = set()
                for g in e.generators:
                    gids |= {t[1] for t in self.iter_gens(g.iter, st)}
                if any(t[0] == 'blk' and t[1] in gids for t in self.tags(elt, s2)):
                    self.report('block-retention', e, 'blocks of the source are collected without being copied', self)
            return
        if isinstance(e, ast.Call):
            self.visit_call(e, st)
            return
        if isinstance(e, ast.NamedExpr):
            self.visit(e.value, st)
            st.d[e.target.id] = self.tags(e.value, st)
            return
        if isinstance(e, (ast.Yield, ast.YieldFrom)):
            self.visit(e.value, st)
            if e.value is not None:
                t = self.tags(e.value, st)
                if isinstance(e, ast.YieldFrom):
                    t = frozenset(('blk', x[1]) for x in t if x[0] == 'gen')
                self.sum.yields |= frozenset(('blk', '') if x[0] == 'blk' else x for x in t if x[0] in ('blk', 'cfg', 'par'))
            return
        for c in ast.iter_child_nodes(e):
            if isinstance(c, (ast.expr, ast.keyword, ast.Starred, ast.FormattedValue, ast.Slice)):
                self.visit(c, st)

    def visit_call(self, e, st):
        fn = (dotted(e.func) or (e.func.attr if isinstance(e.func, ast.Attribute) else '')).split('.')[-1]
        if fn == 'len' and e.args and isinstance(e.args[0], ast.Name):
            return
        if isinstance(e.func, ast.Attribute):
            if not (fn in ADDERS and isinstance(e.func.value, ast.Name)):
                self.visit(e.func.value, st)
        for a in e.args:
            self.visit(a, st)
        for k in e.keywords:
            self.visit(k.value, st)
        a0 = e.args[0] if e.args else None
        where = ast.unparse(e)[:60]
        if isinstance(e.func, ast.Attribute):
            bt = self.tags(e.func.value, st)
            r = self.prog.resolve_dotted(self.func.module, e.func)
            if fn in INPLACE_METHODS and not (r and r[0] == 'ext'):
                self.mutate(frozenset(t for t in bt if t[0] in ('blk', 'stale', 'cfg', 'par') and not (t[0] == 'cfg' and fn in ('put', 'sort') and not t[2])), e, f'{where}')
            if fn == 'at' and a0 is not None and isinstance(e.func.value, (ast.Name, ast.Attribute)):
                u = (dotted(e.func.value) or '').split('.')[-1]
                if u in BINARY_UFUNC | UNARY_UFUNC:
                    self.mutate(self.tags(a0, st), e, where)
            if fn in ADDERS:
                held = frozenset(t for a in e.args for t in self.tags(a, st) if t[0] in ('blk', 'stale'))
                if fn in ('extend', 'extendleft'):
                    if any(t[0] == 'gen' for a in e.args for t in self.tags(a, st)) and not (r and r[0] == 'ext'):
                        self.report('block-retention', e, f'{where} collects blocks of the source without copying them', self)
                    held = frozenset(t[1] if t[0] == 'box' else ('blk', t[1]) for a in e.args for t in self.tags(a, st)
                                     if t[0] == 'gen' or t[0] == 'box' and t[1][0] in ('blk', 'stale'))
                if held and fn in ('append', 'appendleft', 'insert', 'add', 'put', 'put_nowait', 'setdefault', 'push', 'extend', 'extendleft') and not (r and r[0] == 'ext'):
                    if isinstance(e.func.value, ast.Name) and not any(t[0] in ('cfg', 'par', 'obj') for t in bt):
                        st.d[e.func.value.id] = bt | frozenset(('box', t) for t in held)
                    elif not any(t[0] == 'obj' for t in bt):
                        self.report('block-retention', e, f'{where} keeps a block of the source without copying it', self)
            if fn in CONTAINER_CHANGES and self.cls is not None and self.cls.find_trait('digest') is not None and not (r and r[0] == 'ext') and not self.may_set() and isinstance(e.func.value, (ast.Attribute, ast.Name)):
                for t in bt:
                    if t[0] == 'cfg' and t[1].startswith('trait ') and not t[2] and not t[1].split('.')[-1].split()[-1].startswith('_'):
                        self.counts['stores'] += 1
                        if not self.suppress:
                            self.report('array-mutation', e, f'{where} changes the value of {t[1]} in place', self)
            if fn == '__next__':
                for t in bt:
                    if t[0] == 'gen':
                        self.request(t[1], st)
        if fn in INPLACE_ARG0 and a0 is not None and not (isinstance(e.func, ast.Attribute) and self.tags(e.func.value, st)):
            self.mutate(self.tags(a0, st), e, where)
        for k in e.keywords:
            if k.arg == 'out':
                outs = k.value.elts if isinstance(k.value, ast.Tuple) else [k.value]
                for o in outs:
                    self.mutate(self.tags(o, st), e, where)
            if k.arg in ('overwrite_x', 'overwrite_a', 'overwrite_input', 'overwrite_b', 'overwrite_data', 'overwrite_ab') and not (isinstance(k.value, ast.Constant) and not k.value.value):
                i = 1 if k.arg in ('overwrite_b',) else 0
                if len(e.args) > i:
                    self.mutate(self.tags(e.args[i], st), e, where)
            if k.arg == 'copy' and fn == 'nan_to_num' and isinstance(k.value, ast.Constant) and k.value.value is False and a0 is not None:
                self.mutate(self.tags(a0, st), e, where)
        if fn in BINARY_UFUNC and len(e.args) == 3:
            self.mutate(self.tags(e.args[2], st), e, where)
        if fn in UNARY_UFUNC and len(e.args) == 2:
            self.mutate(self.tags(e.args[1], st), e, where)
        if fn in CONSUMERS and isinstance(e.func, (ast.Name, ast.Attribute)) and a0 is not None:
            if any(t[0] == 'gen' for t in self.tags(a0, st)):
                self.report('block-retention', e, f'{where} collects blocks of the source without copying them', self)
        if fn == 'next' and a0 is not None:
            for t in self.tags(a0, st):
                if t[0] == 'gen':
                    self.request(t[1], st, collection='[]' in t[1])
        for g, b in self.callees(e, st):
            s = self.eng.summary(g.node)
            for p, how in s.mutates.items():
                if p in b:
                    self.mutate(self.tags(b[p], st), e, f'call of {g.qual} ({how})' if 'augmented' not in how else f'augmented assignment in {g.qual}')

    def store(self, t, tags, st, node):
        if isinstance(t, ast.Name):
            st.d[t.id] = tags
        elif isinstance(t, (ast.Tuple, ast.List)):
            for e in t.elts:
                self.store(e, frozenset(x[1] for x in tags if x[0] == 'box'), st, node)
        elif isinstance(t, ast.Starred):
            self.store(t.value, tags, st, node)
        elif isinstance(t, ast.Attribute):
            self.visit(t.value, st)
            if t.attr in VIEW_ATTR and not any(x[0] == 'obj' for x in self.tags(t.value, st)):
                self.mutate(self.tags(t.value, st), node, f'assignment to {ast.unparse(t)}')
            elif any(x[0] in ('blk', 'stale') or x[0] == 'box' and x[1][0] in ('blk', 'stale') for x in tags):
                self.report('block-retention', node, f'{ast.unparse(t)} keeps a block of the source without copying it', self)
        elif isinstance(t, ast.Subscript):
            self.visit(t.slice, st)
            if not isinstance(t.value, ast.Name):
                self.visit(t.value, st)
            base = self.tags(t.value, st)
            held = frozenset(x for x in tags if x[0] in ('blk', 'stale'))
            if ('cont',) in base:
                if held and isinstance(t.value, ast.Name):
                    st.d[t.value.id] = base | frozenset(('box', x) for x in held)
                return
            if self.plain_container(t.value):
                if held:
                    self.report('block-retention', node, f'{ast.unparse(t)} keeps a block of the source without copying it', self)
                return
            self.mutate(base, node, f'assignment to {ast.unparse(t)[:60]}')

    def may_set(self):
        """a setter or a handler of changes"""
        n = self.func.name
        return n.startswith(('_set_', '__init__')) or n.endswith(('_changed', '_fired', '_default')) or self.func.decorator('on_trait_change') is not None or self.func.decorator('observe') is not None

    def plain_container(self, e):
        d = dotted(e)
        if d and self.self and d.startswith(self.self + '.') and d.count('.') == 1 and self.cls is not None:
            tr = self.cls.find_trait(e.attr)
            return tr is not None and tr.kind in ('Dict', 'List')
        return False

    def simple(self, s, st):
        if isinstance(s, ast.Assign):
            self.visit(s.value, st)
            for t in s.targets:
                if isinstance(t, ast.Attribute) and self.cls is not None and isinstance(t.value, ast.Name) and t.value.id == self.self:
                    # a generator, or an object wrapped around one, kept for later calls
                    held = [s.value] + (list(s.value.args) if isinstance(s.value, ast.Call) else [])
                    if any(x[0] == 'gen' for h in held for x in self.tags(h, st)):
                        self.eng.genattrs.add((self.cls.name, t.attr))
            if len(s.targets) == 1 and isinstance(s.targets[0], (ast.Tuple, ast.List)) and isinstance(s.value, (ast.Tuple, ast.List)) and len(s.targets[0].elts) == len(s.value.elts):
                vals = [self.tags(v, st) for v in s.value.elts]
                for t, v in zip(s.targets[0].elts, vals):
                    self.store(t, v, st, s)
                return
            tags = self.tags(s.value, st)
            if isinstance(s.value, ast.BinOp) and isinstance(s.value.op, ast.Mult) and isinstance(s.value.left, (ast.List,)):
                tags = frozenset([('cont',)])
            for t in s.targets:
                self.store(t, tags, st, s)
        elif isinstance(s, ast.AnnAssign) and s.value is not None:
            self.visit(s.value, st)
            self.store(s.target, self.tags(s.value, st), st, s)
        elif isinstance(s, ast.AugAssign):
            self.visit(s.value, st)
            t = s.target
            if isinstance(t, ast.Name):
                tg = st.d.get(t.id, EMPTY)
                if ('cont',) in tg:
                    held = frozenset(x for x in self.tags(s.value, st) if x[0] == 'box')
                    st.d[t.id] = tg | held
                    return
                self.mutate(tg, s, f'augmented assignment to {t.id}')
            elif isinstance(t, ast.Attribute):
                if t.attr in VIEW_ATTR:
                    self.mutate(self.tags(t.value, st), s, f'assignment to {ast.unparse(t)}')
                else:
                    # self.x += v works in place when x holds an array
                    self.mutate(frozenset(x for x in self.tags(t, st) if x[0] == 'cfg' and x[2] and (x[1].count('.') >= 1 or not self.may_set())), s, f'augmented assignment to {ast.unparse(t)}')
            elif isinstance(t, ast.Subscript):
                self.visit(t.slice, st)
                base = self.tags(t.value, st)
                if ('cont',) not in base and not self.plain_container(t.value):
                    self.mutate(base, s, f'assignment to {ast.unparse(t)[:60]}')
        elif isinstance(s, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef, ast.Import, ast.ImportFrom, ast.Global, ast.Nonlocal, ast.Pass)):
            return
        else:
            for c in ast.iter_child_nodes(s):
                if isinstance(c, ast.expr):
                    self.visit(c, st)

    def on_return(self, s, st):
        if s.value is not None:
            self.sum.returns |= frozenset(t for t in self.tags(s.value, st) if t[0] in ('par', 'cfg', 'gen'))

    # ------------------------------------------------------------ iteration
    def iter_gens(self, it, st):
        if isinstance(it, ast.Call) and dotted(it.func) in ('enumerate', 'zip', 'iter', 'reversed', 'islice', 'itertools.islice', 'chain', 'itertools.chain', 'zip_longest', 'itertools.zip_longest'):
            return frozenset(t for a in it.args for t in self.iter_gens(a.value if isinstance(a, ast.Starred) else a, st))
        return frozenset(t for t in self.tags(it, st) if t[0] == 'gen')

    def bind_iter(self, target, it, st):
        fn = dotted(it.func) if isinstance(it, ast.Call) else None
        if fn in ('enumerate',) and it.args and isinstance(target, (ast.Tuple, ast.List)) and len(target.elts) == 2:
            self.store(target.elts[0], EMPTY, st, target)
            if isinstance(target.elts[0], ast.Name):
                self.loopidx.add(target.elts[0].id)
            self.bind_iter(target.elts[1], it.args[0], st)
            return
        if fn in ('zip', 'zip_longest', 'itertools.zip_longest') and isinstance(target, (ast.Tuple, ast.List)) and len(target.elts) == len(it.args):
            for t, a in zip(target.elts, it.args):
                self.bind_iter(t, a, st)
            return
        if fn in ('range', 'arange', 'nb.prange', 'prange', 'numba.prange') and isinstance(target, ast.Name):
            self.loopidx.add(target.id)
            st.d[target.id] = EMPTY
            return
        if fn in ('iter', 'islice', 'itertools.islice', 'reversed') and it.args:
            self.bind_iter(target, it.args[0], st)
            return
        if self.func.name == '_calc' and isinstance(it, ast.Name) and it.id in self.func.params and isinstance(target, ast.Name):
            # the numbers of the frequencies to calculate
            self.loopidx.add(target.id)
            st.d[target.id] = EMPTY
            return
        out = set()
        for t in self.tags(it, st):
            if t[0] == 'gen':
                self.request(t[1], st)
                out.add(('blk', t[1]))
            elif t[0] == 'box':
                x = t[1]
                out.add(('gen', x[1] + '[]') if x[0] == 'gen' and '[]' not in x[1] else x)
            elif t[0] in ('cfg', 'par', 'blk', 'stale'):
                out.add(t)
        self.store(target, frozenset(out), st, target)

    def bind_for(self, node, st):
        self.bind_iter(node.target, node.iter, st)

    def for_end(self, node, st):
        # the source is exhausted: no further request, but the last block was delivered before the final request
        for t in self.iter_gens(node.iter, st):
            pass

    def with_enter(self, item, st):
        self.visit(item.context_expr, st)
        if item.optional_vars is not None:
            self.store(item.optional_vars, EMPTY, st, item.context_expr)

    def bind_name(self, name, st):
        st.d[name] = EMPTY


def run(prog, R, report, eng=None):
    eng = eng or Engine(prog, R)
    tot = {'stores': 0, 'requests': 0, 'functions': 0}
    for f, c, q in eng.funcs:
        a = Alias(eng, f, c, q, report).go()
        tot['functions'] += 1
        for k in a.counts:
            tot[k] += a.counts[k]
    return tot
