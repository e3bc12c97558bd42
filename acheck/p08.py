"""P08: computing results does not change anybody's configuration."""

import ast

from .deps import Deps, strip
from .model import dotted, walk_no_nested

# method names whose purpose is to change the object (documented operations, not computations)
CHANGERS = ('load', 'save', 'set', 'import', 'create', 'write', 'register', 'remove', 'add', '__init__', 'validate', 'increase', 'clear')
# (class, attribute) -> reason
ALLOWED = {
    ('WriteH5', 'file'): 'the name of the file that is created is reported in this attribute when none was given',
    ('WriteH5', 'write_flag'): 'documented control flag of the running recording',
    ('SoundDeviceSamplesGenerator', 'collectsamples'): 'documented control flag of the running recording',
    ('SoundDeviceSamplesGenerator', 'overflow'): 'reports buffer overflows of the running recording',
    ('SoundDeviceSamplesGenerator', 'stream'): 'handle of the running stream',
    ('SoundDeviceSamplesGenerator', 'running'): 'documented state flag of the running recording',
    ('GeneralFlowEnvironment', 'idict'): 'table of interpolators derived from the flow field, dropped when the flow field changes',
    ('TimeSamples', 'h5f'): 'handle of the open file',
}
MUTATORS = {'append', 'appendleft', 'extend', 'insert', 'remove', 'pop', 'popleft', 'popitem', 'clear', 'sort', 'reverse', 'update', 'setdefault', 'add',
            'discard', 'trait_set', 'set', 'reset_traits', 'copy_traits', '__setitem__', 'fill', 'resize'}


def handler(f):
    return f.decorator('on_trait_change') is not None or f.decorator('observe') is not None


def is_changer(n):
    b = n.lstrip('_')
    return any(b == c or b.startswith(c + '_') or b.startswith(c) and c == '__init__' for c in CHANGERS) or n.endswith('_changed') or n.endswith('_fired') or n == '__init__'


class Stores:
    """direct stores to attributes of self / of objects below self, through local aliases"""

    def __init__(self, R, C, f, binds=None, depth=0):
        self.R, self.C, self.f, self.depth = R, C, f, depth
        self.self = f.params[0] if f.params and binds is None else None
        self.env = {k: {v} for k, v in (binds or {}).items()}
        for _ in range(3):
            for n in walk_no_nested(f.node):
                if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                    p = self.path(n.value)
                    if p:
                        self.env.setdefault(n.targets[0].id, set()).add(p)
                elif isinstance(n, ast.For) and isinstance(n.target, ast.Name):
                    p = self.path(n.iter)
                    if p:
                        self.env.setdefault(n.target.id, set()).add(p + ('*',))
                elif isinstance(n, ast.For) and isinstance(n.iter, ast.Call) and dotted(n.iter.func) in ('enumerate', 'zip', 'reversed', 'sorted', 'list'):
                    ts = n.target.elts if isinstance(n.target, ast.Tuple) else [n.target]
                    if dotted(n.iter.func) == 'enumerate':
                        ts = ts[1:]
                    for t, a in zip(ts, n.iter.args):
                        p = self.path(a)
                        if p and isinstance(t, ast.Name):
                            self.env.setdefault(t.id, set()).add(p + ('*',))

    def path(self, e):
        if isinstance(e, ast.Name):
            if e.id == self.self:
                return ()
            v = self.reaching(e)
            if v is not None:
                return self.path(v)
            s = self.env.get(e.id)
            return next(iter(s)) if s and len(s) == 1 else None
        if isinstance(e, ast.Attribute):
            p = self.path(e.value)
            return None if p is None else p + (e.attr,)
        if isinstance(e, ast.Subscript):
            p = self.path(e.value)
            return None if p is None or not p else (p if isinstance(e.slice, ast.Slice) else p + ('*',))
        return None

    def reaching(self, e):
        """the value that the name was last given, when only one statement can have given it"""
        def assigns(n):
            return any(isinstance(k, ast.Name) and k.id == e.id and isinstance(k.ctx, (ast.Store, ast.Del)) for k in ast.walk(n))

        c, p = e, getattr(e, '_parent', None)
        while p is not None and c is not self.f.node:
            for field in ('body', 'orelse', 'finalbody'):
                L = getattr(p, field, None)
                if isinstance(L, list) and any(x is c for x in L):
                    i = next(i for i, x in enumerate(L) if x is c)
                    for x in reversed(L[:i]):
                        if isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name) and x.targets[0].id == e.id:
                            return x.value
                        if assigns(x):
                            return None
            if isinstance(p, (ast.For, ast.While, ast.Try, ast.With)) and assigns(p):
                return None
            c, p = p, getattr(p, '_parent', None)
        return None

    def stores(self):
        """(path, node, how)"""
        for n in walk_no_nested(self.f.node):
            tg = []
            if isinstance(n, ast.Assign):
                tg = n.targets
            elif isinstance(n, (ast.AugAssign, ast.AnnAssign)):
                tg = [n.target]
            elif isinstance(n, ast.Delete):
                tg = n.targets
            elif isinstance(n, (ast.For,)):
                tg = [n.target]
            elif isinstance(n, ast.withitem) and n.optional_vars is not None:
                tg = [n.optional_vars]
            flat = []
            tg = list(tg)
            while tg:
                t = tg.pop() if isinstance(tg, list) else None
                if isinstance(t, (ast.Tuple, ast.List)):
                    tg = tg + list(t.elts)
                elif t is not None:
                    flat.append(t.value if isinstance(t, ast.Starred) else t)
            for t in flat:
                if isinstance(t, ast.Attribute):
                    p = self.path(t.value)
                    if p is not None:
                        yield p + (t.attr,), t, 'assigns'
                elif isinstance(t, ast.Subscript):
                    p = self.path(t.value)
                    if p:
                        yield p, t, 'changes an element of'
            if isinstance(n, ast.Call):
                if dotted(n.func) in ('setattr', 'delattr') and n.args:
                    p = self.path(n.args[0])
                    if p is not None:
                        a = n.args[1].value if len(n.args) > 1 and isinstance(n.args[1], ast.Constant) else '?'
                        yield p + (a,), n, 'assigns'
                elif isinstance(n.func, ast.Attribute) and n.func.attr in MUTATORS:
                    p = self.path(n.func.value)
                    if p is None:
                        continue
                    if n.func.attr in ('trait_set', 'set', 'reset_traits', 'copy_traits'):
                        for k in n.keywords:
                            if k.arg:
                                yield p + (k.arg,), n, 'assigns'
                        if not n.keywords and n.func.attr in ('reset_traits', 'copy_traits'):
                            yield p + ('?',), n, 'resets'
                    elif p:
                        yield p, n, f'calls {n.func.attr} on'
                elif self.depth < 3:
                    # a module level helper that receives the object
                    r = self.R.prog.resolve_dotted(self.f.module, n.func) if isinstance(n.func, (ast.Name, ast.Attribute)) else None
                    if r and r[0] == 'func' and r[1].cls is None:
                        g = r[1]
                        b = {}
                        for i, a in enumerate(n.args):
                            if not isinstance(a, ast.Starred) and i < len(g.params) and self.path(a) is not None:
                                b[g.params[i]] = self.path(a)
                        for k in n.keywords:
                            if k.arg and self.path(k.value) is not None:
                                b[k.arg] = self.path(k.value)
                        b = {k: v for k, v in b.items() if self.R.typeof(self.C, v) is not None or v == () or v[-1] == '*' or any(isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == k and isinstance(x.ctx, ast.Store) for x in ast.walk(g.node))}
                        if b:
                            for p, nn, how in Stores(self.R, self.C, g, b, self.depth + 1).stores():
                                yield p, n, f'(through {g.name}) {how}'


def closure(R, prog, C, f, seen):
    """f and the helpers of self it calls"""
    if id(f.node) in seen:
        return
    seen[id(f.node)] = f
    for n in walk_no_nested(f.node):
        if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and f.params and n.value.id == f.params[0]:
            g = C.find_method(n.attr)
            if g is not None and not handler(g):
                closure(R, prog, C, g, seen)
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Call) and dotted(n.func.value.func) == 'super' and f.cls in C.mro():
            g = C.find_method(n.func.attr, after=f.cls)
            if g is not None:
                closure(R, prog, C, g, seen)
        if isinstance(n, (ast.FunctionDef,)):
            pass


def check(prog, rep):
    rep.rule('config-write', 'no result method, getter or helper of one assigns a public parameter of its own object (loading, saving and registering are separate operations)')
    rep.rule('foreign-write', 'no method or change handler of an object assigns to, or changes a container of, another object it refers to')
    D = Deps(prog)
    R = D.R
    for C in prog.all_classes():
        if not C.is_traits or C.find_trait('digest') is None:
            continue
        roots = []
        for n, f in C.all_methods().items():
            if n.startswith('_set_') or handler(f) or is_changer(n):
                continue
            roots.append(f)
        seen = {}
        for f in roots:
            closure(R, prog, C, f, seen)
        for f in seen.values():
            if f.name.startswith('_set_'):
                continue
            rep.count('method_obligations')
            for path, node, how in Stores(R, C, f).stores():
                rep.count('stores')
                where = f'{f.module.rel}:{node.lineno} {f.qual}'
                if len(path) == 1:
                    t = C.find_trait(path[0])
                    if t is None or path[0].startswith('_'):
                        continue
                    if any((k.name, path[0]) in ALLOWED for k in C.mro()):
                        continue
                    if is_changer(f.name) or f.name.startswith('_') and is_changer(f.name):
                        if path[0] not in config_params(D, C):
                            continue
                    if t.is_property:
                        g = C.find_method(f'_set_{path[0]}')
                        if g is None:
                            continue
                    if path[0] not in config_params(D, C) and not is_public_param(C, t):
                        continue
                    if t.transient:
                        continue
                    rep.viol('config-write', f'{f.qual}.{path[0]}', f'{f.qual} {how} the parameter {path[0]} of its own object while computing', where)
                else:
                    if not foreign(R, C, path, how):
                        continue
                    rep.viol('foreign-write', f'{f.qual}.{".".join(path)}', f'{f.qual} {how} {".".join(path)}, which belongs to another object', where)
        # change handlers and setters may keep their own object consistent, but not change others
        for n, f in C.methods.items():
            if not (handler(f) or n.startswith('_set_')) or id(f.node) in seen:
                continue
            rep.count('method_obligations')
            for path, node, how in Stores(R, C, f).stores():
                if len(path) > 1 and foreign(R, C, path, how):
                    rep.viol('foreign-write', f'{f.qual}.{".".join(path)}', f'{f.qual} {how} {".".join(path)}, which belongs to another object', f'{f.module.rel}:{node.lineno} {f.qual}')
    for m in prog.modules.values():
        for f in m.functions.values():
            rep.count('method_obligations')
            if f.decorators and any(x in ('njit', 'jit', 'vectorize', 'guvectorize') for x in f.decorator_names()):
                continue
            for p in f.params:
                if p in ('cls', 'self'):
                    continue
                for n in walk_no_nested(f.node):
                    if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)) and isinstance(n.value, ast.Name) and n.value.id == p \
                            and not any(isinstance(x, ast.Name) and x.id == p and isinstance(x.ctx, ast.Store) for x in walk_no_nested(f.node)) \
                            and n.attr not in ('shape', 'real', 'imag', '__doc__', '__name__'):
                        rep.viol('foreign-write', f'{m.name}:{f.name}.{p}.{n.attr}', f'{f.name} assigns {n.attr} of the object it is given', f'{m.rel}:{n.lineno} {f.name}')
    rep.floor('method_obligations', 300)
    rep.floor('stores', 60)


_cp = {}


def config_params(D, C):
    k = id(D), C
    if k not in _cp:
        _cp[k] = {strip(d).split('.')[0] for d in (D.declared_deps(C, 'digest') if C.find_trait('digest') is not None else [])}
    return _cp[k]


def is_public_param(C, t):
    return t.kind is not None and t.kind not in ('Instance',) or t.kind == 'Instance'


def foreign(R, C, path, how):
    """does the path leave self through an object (not just an own list / dict / array)?"""
    for i in range(1, len(path) + (0 if how.endswith('assigns') else 1)):
        if i == len(path) and not how.endswith('assigns'):
            break
        p = path[:i]
        if R.typeof(C, p) is not None:
            return True
    return False
