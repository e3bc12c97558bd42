"""P17: the end of a source ends its consumers cleanly."""

import ast

from .model import dotted, walk_no_nested
from .p24 import all_funcs

CATCH = {'StopIteration', 'Exception', 'BaseException'}


def handler_types(h):
    if h.type is None:
        return {'BaseException'}
    ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
    return {(dotted(t) or '').split('.')[-1] for t in ts}


def protected(n, fn):
    """is node n inside a try body whose handlers catch StopIteration (within fn)?"""
    cur = n
    while cur is not fn and cur is not None:
        par = getattr(cur, '_parent', None)
        if isinstance(par, ast.Try) and cur in par.body:
            if any(handler_types(h) & CATCH for h in par.handlers):
                return True
        if isinstance(par, (ast.With, ast.AsyncWith)) and cur in par.body:
            for it in par.items:
                c = it.context_expr
                if isinstance(c, ast.Call) and (dotted(c.func) or '').split('.')[-1] == 'suppress' and any((dotted(a) or '').split('.')[-1] in CATCH for a in c.args):
                    return True
        cur = par
    return False


def requests(fn):
    for n in walk_no_nested(fn):
        if isinstance(n, ast.Call):
            d = dotted(n.func)
            if d == 'next' and len(n.args) == 1 and not n.keywords:
                a = n.args[0]
                # next(count()) / next(cycle(..)) never end
                if isinstance(a, ast.Call) and (dotted(a.func) or '').split('.')[-1] in ('count', 'cycle', 'repeat'):
                    continue
                yield n
            elif isinstance(n.func, ast.Attribute) and n.func.attr in ('__next__', 'send') and not n.keywords and len(n.args) <= 1:
                if n.func.attr == '__next__' or n.args:
                    yield n


def check(prog, rep):
    rep.rule('end-of-source', 'a request for the next block inside a generator handles the end of that source (StopIteration inside a generator becomes RuntimeError)')
    rep.rule('end-loop', 'the handler of the end of a source leaves the loop or records the end')
    funcs = list(all_funcs(prog))
    may = {}
    names = {}
    for f, c, q in funcs:
        names.setdefault(f.name, []).append(f)
    # functions that let StopIteration escape
    changed = True
    esc = {}
    for f, c, q in funcs:
        if f.generator:
            continue
        for n in requests(f.node):
            if not protected(n, f.node):
                esc[id(f.node)] = (f, n)
        for n in walk_no_nested(f.node):
            if isinstance(n, ast.Raise) and n.exc is not None and (dotted(n.exc.func if isinstance(n.exc, ast.Call) else n.exc) or '') == 'StopIteration' and not protected(n, f.node):
                if f.name != '__next__':
                    esc[id(f.node)] = (f, n)
    esc = {k: v for k, v in esc.items() if v[0].name not in ('__next__',)}

    def calls(f, c):
        for n in walk_no_nested(f.node):
            if isinstance(n, ast.Call):
                g = None
                if isinstance(n.func, ast.Name):
                    r = prog.resolve_global(f.module, n.func.id)
                    g = [r[1]] if r and r[0] == 'func' else []
                elif isinstance(n.func, ast.Attribute):
                    if isinstance(n.func.value, ast.Name) and f.params and n.func.value.id == f.params[0] and c is not None:
                        g = [S.find_method(n.func.attr) for S in [c] + prog.subclasses(c)]
                    else:
                        g = []
                for x in g or []:
                    if x is not None:
                        yield n, x

    while changed:
        changed = False
        for f, c, q in funcs:
            if f.generator or id(f.node) in esc:
                continue
            for n, g in calls(f, c):
                if id(g.node) in esc and not protected(n, f.node):
                    esc[id(f.node)] = (f, n)
                    changed = True
                    break
    for f, c, q in funcs:
        if f.generator:
            rep.count('generators')
            for n in requests(f.node):
                rep.count('request_obligations')
                if not protected(n, f.node):
                    rep.viol('end-of-source', f'{f.module.name}:{q}:{ast.unparse(n)}', f'{ast.unparse(n)} in the generator {q}: the end of the source becomes a RuntimeError', f'{f.module.rel}:{n.lineno} {q}')
            for n in walk_no_nested(f.node):
                if isinstance(n, ast.Raise) and n.exc is not None and (dotted(n.exc.func if isinstance(n.exc, ast.Call) else n.exc) or '') == 'StopIteration' and not protected(n, f.node):
                    rep.viol('end-of-source', f'{f.module.name}:{q}:raise', f'raise StopIteration in the generator {q} becomes a RuntimeError', f'{f.module.rel}:{n.lineno} {q}')
            for n, g in calls(f, c):
                if id(g.node) in esc and not g.generator:
                    rep.count('request_obligations')
                    if not protected(n, f.node):
                        rep.viol('end-of-source', f'{f.module.name}:{q}:{ast.unparse(n.func)}', f'{g.qual} lets the end of its source escape into the generator {q}', f'{f.module.rel}:{n.lineno} {q}')
        for t in walk_no_nested(f.node):
            if isinstance(t, ast.Try):
                for h in t.handlers:
                    if 'StopIteration' not in handler_types(h):
                        continue
                    rep.count('handler_obligations')
                    # innermost loop around the try
                    k, loop = t, None
                    while k is not None and k is not f.node:
                        if isinstance(k, (ast.While, ast.For)) and loop is None:
                            loop = k
                        k = getattr(k, '_parent', None)
                    if loop is None or isinstance(loop, ast.For):
                        continue
                    leaves = any(isinstance(x, (ast.Return, ast.Break, ast.Raise)) for s in h.body for x in ast.walk(s))
                    sets = {ast.unparse(y) for s in h.body for x in ast.walk(s) if isinstance(x, (ast.Assign, ast.AugAssign)) for y in (x.targets if isinstance(x, ast.Assign) else [x.target])}
                    if not leaves and not any(y in ast.unparse(loop.test) for y in sets):
                        rep.viol('end-loop', f'{f.module.name}:{q}', f'after the end of the source {q} requests blocks for ever', f'{f.module.rel}:{h.lineno} {q}')
        for n in walk_no_nested(f.node):
            if isinstance(n, ast.Call) and dotted(n.func) == 'next' and len(n.args) == 2:
                rep.count('request_obligations')
                k, loop, stmt = n, None, None
                while k is not None and k is not f.node:
                    if isinstance(k, ast.stmt) and stmt is None:
                        stmt = k
                    if isinstance(k, (ast.While, ast.For)) and loop is None:
                        loop = k
                    k = getattr(k, '_parent', None)
                if not isinstance(loop, ast.While):
                    continue
                if stmt is loop:
                    continue  # the request is the condition of the loop
                names = {ast.unparse(t) for t in stmt.targets} if isinstance(stmt, ast.Assign) else set()
                names |= {x.target.id for x in ast.walk(stmt) if isinstance(x, ast.NamedExpr)}
                tests = [x for x in ast.walk(loop) if isinstance(x, (ast.If, ast.IfExp, ast.While)) and any(ast.unparse(y) in names for y in ast.walk(x.test))]
                out = False
                for x in tests:
                    if x is loop:
                        out = True
                        continue
                    for b in ([x.body, x.orelse] if isinstance(x, ast.If) else []):
                        out |= any(isinstance(y, (ast.Return, ast.Break, ast.Raise)) for z in b for y in ast.walk(z))
                        out |= any(isinstance(y, ast.Assign) and any(ast.unparse(t) in ast.unparse(loop.test) for t in y.targets) for z in b for y in ast.walk(z))
                if not out:
                    rep.viol('end-loop', f'{f.module.name}:{q}:{ast.unparse(n)}', f'{ast.unparse(n)} stands for the end of the source, but {q} does not leave the loop then', f'{f.module.rel}:{n.lineno} {q}')
    rep.floor('generators', 30)
    rep.floor('request_obligations', 4)
