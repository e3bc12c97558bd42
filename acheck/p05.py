"""P05: data that belongs to somebody else is not modified and not kept."""

import ast

from . import alias
from .model import walk_no_nested
from .reads import Reads


def check(prog, rep):
    rep.rule('block-mutation', 'no step writes into a block it received from its source (views, slices and helper functions included)')
    rep.rule('block-retention', 'a block, or a view of it, is not used, stored or collected beyond the request of the next block unless copied')
    rep.rule('array-mutation', 'no computation writes into an array held by a configuration trait or a cached property')

    def report(rule, node, msg, w):
        rep.viol(rule, f'{w.func.module.name}:{w.qual}:{msg.split(" ")[0] if rule != "block-retention" else ""}{msg[-40:]}', msg, f'{w.func.module.rel}:{node.lineno} {w.qual}')

    R = Reads(prog)
    eng = alias.Engine(prog, R)
    tot = alias.run(prog, R, report, eng)
    rep.rule('argument-mutation', 'a public method that returns a value does not write into the arrays it was given')
    for f, c, q in eng.funcs:
        if c is None or f.name.startswith('_') or f.generator or f.decorator_names() or not any(isinstance(n, ast.Return) and n.value is not None for n in walk_no_nested(f.node)):
            continue
        rep.count('public_functions')
        for par, how in sorted(eng.summary(f.node).mutates.items()):
            if how.startswith('augmented') and not (how.startswith('augmented assignment to ') and is_array(f, c, par, how.split()[-1])):
                continue
            rep.viol('argument-mutation', f'{f.module.name}:{q}:{par}', f'{how} changes the argument {par} of {q} in place', f.where)
    rep.count('functions', tot['functions'])
    rep.count('store_obligations', tot['stores'])
    rep.count('request_obligations', tot['requests'])
    rep.floor('functions', 400)
    rep.floor('store_obligations', 500)
    rep.floor('request_obligations', 40)


def is_array(f, c, par, name):
    """is a local that is assigned in place surely an array: it is subscripted, taken apart, or combined with an array of the configuration"""
    for n in walk_no_nested(f.node):
        if isinstance(n, ast.Subscript) and isinstance(n.value, ast.Name) and n.value.id in (par, name):
            return True
        if isinstance(n, ast.Assign) and isinstance(n.value, ast.Name) and n.value.id in (par, name) and any(isinstance(t, ast.Tuple) for t in n.targets):
            return True
        e = n.value if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name) and n.target.id == name else None
        if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and f.params and e.value.id == f.params[0]:
            t = c.find_trait(e.attr)
            if t is not None and t.kind in ('CArray', 'Array', 'ArrayOrNone'):
                return True
    return False
