"""P25: an explicit zero is not the same as "not given"."""

import ast

from .model import Func, dotted, walk_no_nested
from .p24 import all_funcs
from .reads import Reads

NUM = {'Int', 'CInt', 'Float', 'CFloat', 'Range', 'Long', 'CLong', 'Complex'}


ARRAYS = {'array', 'asarray', 'zeros', 'ones', 'empty', 'full', 'arange', 'linspace', 'eye', 'concatenate', 'zeros_like', 'ones_like'}


def optional_number(t):
    """trait that is None unless a number is given"""
    if t.call is None:
        return False
    if t.kind in NUM:
        a = t.arg(0) if t.arg(0) is not None else t.kw('default_value') if t.kind == 'Range' else t.arg(0)
        if t.kind == 'Range':
            a = t.kw('value')
        return isinstance(a, ast.Constant) and a.value is None
    if t.kind in ('Union', 'Either'):
        none = any(isinstance(a, ast.Constant) and a.value is None for a in t.call.args)
        num = any((dotted(a.func if isinstance(a, ast.Call) else a) or '').split('.')[-1] in NUM for a in t.call.args)
        return none and num
    return False


def truth_tests(fn):
    """expressions whose truth value decides something"""
    def operands(e):
        if isinstance(e, ast.BoolOp):
            for v in e.values:
                yield from operands(v)
        elif isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            yield from operands(e.operand)
        elif isinstance(e, ast.Call) and dotted(e.func) == 'bool' and e.args:
            yield from operands(e.args[0])
        elif isinstance(e, ast.NamedExpr):
            yield from operands(e.value)
        else:
            yield e

    for n in walk_no_nested(fn):
        if isinstance(n, (ast.If, ast.While, ast.IfExp)):
            yield from operands(n.test)
        elif isinstance(n, ast.Assert):
            yield from operands(n.test)
        elif isinstance(n, ast.BoolOp):
            yield from operands(n)
        elif isinstance(n, ast.comprehension):
            for c in n.ifs:
                yield from operands(c)
        elif isinstance(n, ast.Call) and dotted(n.func) == 'bool' and n.args:
            yield from operands(n.args[0])
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            yield from operands(n)


def used_as_number(fn, name):
    """is the parameter an operand of arithmetic / ordering / slicing somewhere in the function?"""
    for n in walk_no_nested(fn):
        if isinstance(n, ast.BinOp) and any(isinstance(x, ast.Name) and x.id == name for x in (n.left, n.right)):
            other = n.right if isinstance(n.left, ast.Name) and n.left.id == name else n.left
            if not isinstance(n.op, ast.Add) or isinstance(other, ast.Constant) and isinstance(other.value, (int, float)):
                return True
        if isinstance(n, ast.Compare) and any(isinstance(o, (ast.Lt, ast.LtE, ast.Gt, ast.GtE)) for o in n.ops) and any(isinstance(x, ast.Name) and x.id == name for x in [n.left] + n.comparators):
            return True
        if isinstance(n, ast.Call) and (dotted(n.func) or '').split('.')[-1] in ('arange', 'range', 'linspace') and any(isinstance(x, ast.Name) and x.id == name for x in n.args[:2]):
            return True
        if isinstance(n, ast.Slice) and any(isinstance(x, ast.Name) and x.id == name for x in (n.lower, n.upper, n.step) if x is not None):
            return True
    return False


def check(prog, rep):
    rep.rule('explicit-zero', 'whether an optional number (default None) was given is decided by comparison with None, never by its truth value: an explicit 0 is a value')
    R = Reads(prog)
    for f, c, q in all_funcs(prog):
        selfn = f.params[0] if c is not None and f.params else None
        alias = {}
        counts = {}
        for n in walk_no_nested(f.node):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                counts[n.id] = counts.get(n.id, 0) + 1
        for n in walk_no_nested(f.node):
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and isinstance(n.value, (ast.Attribute, ast.Name)) and counts[n.targets[0].id] == 1:
                d = dotted(n.value)
                if d:
                    alias[n.targets[0].id] = d
        opt_params = {p for p in f.params + f.kwonly if isinstance(f.default_of(p), ast.Constant) and f.default_of(p).value is None and used_as_number(f.node, p)}
        arrays = {p for p in f.params + f.kwonly if isinstance(f.default_of(p), ast.Constant) and f.default_of(p).value is None and p not in opt_params}
        for n in walk_no_nested(f.node):
            # x or array(...): the truth value of an array is an error or that of its only element
            if isinstance(n, ast.BoolOp) and isinstance(n.op, ast.Or):
                x = dotted(n.values[0])
                if alias.get(x, x) in arrays and any(isinstance(v, ast.Call) and (dotted(v.func) or '').split('.')[-1] in ARRAYS for v in n.values[1:]):
                    rep.viol('explicit-zero', f'{f.module.name}:{q}:{x}', f'{q} takes the truth value of the optional array {x}: an array of more than one value is an error, a single 0 is taken for "not given"', f'{f.module.rel}:{n.lineno} {q}')
        cand = [(e, dotted(e)) for e in truth_tests(f.node)]
        for n in walk_no_nested(f.node):
            # x is None or x == 0;  x in (None, 0)
            if isinstance(n, ast.BoolOp):
                isnone = {dotted(v.left) for v in n.values if isinstance(v, ast.Compare) and isinstance(v.ops[0], (ast.Is, ast.IsNot, ast.Eq, ast.NotEq)) and isinstance(v.comparators[0], ast.Constant) and v.comparators[0].value is None}
                zero = {dotted(v.left) for v in n.values if isinstance(v, ast.Compare) and isinstance(v.ops[0], (ast.Eq, ast.NotEq)) and isinstance(v.comparators[0], ast.Constant) and v.comparators[0].value == 0 and v.comparators[0].value is not False}
                cand += [(n, d) for d in isnone & zero if d]
            if isinstance(n, ast.Compare) and len(n.ops) == 1 and isinstance(n.ops[0], (ast.In, ast.NotIn)) and isinstance(n.comparators[0], (ast.Tuple, ast.List, ast.Set)):
                vals = [x.value for x in n.comparators[0].elts if isinstance(x, ast.Constant)]
                if None in vals and any(v == 0 and not isinstance(v, (bool, str)) for v in vals if v is not None):
                    cand.append((n, dotted(n.left)))
        for e, d in cand:
            rep.count('tests')
            if d is None:
                continue
            d = alias.get(d, d)
            hit = None
            if selfn and d.startswith(selfn + '.'):
                path = tuple(d.split('.')[1:])
                K = c if len(path) == 1 else R.typeof(c, path[:-1])
                t = K.find_trait(path[-1]) if K else None
                if t is not None and t.kind == 'Delegate':
                    rp = None
                if t is not None and optional_number(t):
                    hit = f'trait {d}'
            elif d in opt_params:
                hit = f'parameter {d}'
            if hit:
                rep.viol('explicit-zero', f'{f.module.name}:{q}:{d}', f'{q} takes an explicit 0 of the optional {hit} for "not given"', f'{f.module.rel}:{e.lineno} {q}')
    for C in prog.all_classes():
        for t in C.attrs.values():
            if optional_number(t):
                rep.count('trait_obligations')
    rep.floor('tests', 150)
    rep.floor('trait_obligations', 6)
