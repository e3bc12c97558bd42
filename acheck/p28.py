"""P28: every parameter that distinguishes configurations takes effect."""

import ast

from . import rule_digest
from .deps import Deps, strip

# parameter -> (classes, reason)
NO_EFFECT_OK = {
    'loc': (('MovingPointSource', 'MovingPointSourceDipole', 'MovingLineSource', 'PointSourceConvolve'),
            'the position comes from the trajectory / the propagation is part of the kernel'),
    'start_t': (('UncorrelatedNoiseSource',), 'stationary noise has no time reference'),
    'start': (('UncorrelatedNoiseSource',), 'stationary noise has no time reference'),
}


def effective(D, C, rep=None):
    """names of C's own traits that some output of C reads (through getters, helpers, delegates)"""
    R = D.R
    seen, todo = set(), []

    def push(K_path, a):
        todo.append(a)

    acc = []
    for n, f in C.all_methods().items():
        if n.startswith('_get_') and n.endswith('digest') or n.startswith('_validate') or n.startswith('validate'):
            continue
        if f.decorator('on_trait_change') is not None or f.decorator('observe') is not None:
            continue
        if n.startswith('_set_') or n == '__init__':
            continue
        public = not n.startswith('_')
        if public or n in rule_digest.PRIVATE_OUTPUTS:
            acc += R.method_accesses(C, f)
        elif n.startswith('_get_'):
            t = C.find_trait(n[5:])
            if t is not None and t.is_property and not n[5:].startswith('_'):
                acc += R.method_accesses(C, f)
    names = set()
    done = set()
    work = [a.path for a in acc if a.kind != 'store' and not a.guard]
    for n in ('sample_freq', 'num_channels', 'num_samples', 'num_freqs'):
        t = C.find_trait(n)
        if t is not None:
            work.append((n,))
    while work:
        p = work.pop()
        if p in done:
            continue
        done.add(p)
        rp = D.resolve(C, p)
        names.add(p[0])
        if rp != p:
            work.append(rp)
        t = C.find_trait(p[0])
        if t is not None and t.is_property:
            g = C.find_method(f'_get_{p[0]}')
            if g is not None and not p[0].endswith('digest'):
                work += [a.path for a in R.method_accesses(C, g) if a.kind != 'store' and not a.guard]
        # state maintained by a change handler stands for what the handler reads and is triggered by
        for f, trig in D.observers(C).get(p[0], []):
            for tr in trig:
                work.append(tuple(x for x in strip(tr).replace(':', '.').split('.') if x != 'items'))
            work += [a.path for a in R.method_accesses(C, f) if a.kind != 'store']
    return names


def check(prog, rep):
    rep.rule('parameter-effect', 'each of its own parameters that the digest of a class depends on is read by some output of that class '
             '(validation and change handlers do not count)')
    D = Deps(prog)
    # attributes other objects read through a typed reference
    foreign = set()
    for C in prog.all_classes():
        if not C.is_traits:
            continue
        for n, f in C.all_methods().items():
            if n.startswith('_get_') and n.endswith('digest'):
                continue
            for a in D.R.method_accesses(C, f):
                for i in range(2, len(a.path) + 1):
                    K = D.R.typeof(C, a.path[: i - 1])
                    if K is not None and a.kind != 'store':
                        foreign.add((K, a.path[i - 1]))
    for C in prog.all_classes():
        if not C.is_traits or C.find_trait('digest') is None:
            continue
        g = C.find_method('_get_digest')
        if g is None or 'abstractmethod' in g.decorator_names() or C.abstract_methods():
            continue
        eff = effective(D, C)
        for d in D.declared_deps(C, 'digest'):
            p = strip(d).split('.')
            t = C.find_trait(p[0])
            if t is None or t.is_property or p[0] in D.observers(C):
                continue
            if any(k.name in NO_EFFECT_OK.get(p[0], ((),))[0] for k in C.mro()):
                continue
            if any((k, p[0]) in foreign for k in C.mro()):
                continue
            v = t.enum_values()
            if t.kind == 'Enum' and (v is None or len(v) == 1):
                continue
            rep.count('parameter_obligations')
            if p[0] not in eff:
                rep.viol('parameter-effect', f'{C.name}.{p[0]}', f'{p[0]} of {C.name} is part of the configuration but no output reads it: setting it has no effect', C.where)
    rep.floor('parameter_obligations', 120)


def check_declared(prog, rep):
    """options outside the digest, and parameters of public functions"""
    rep.rule('declared-effect', 'every public trait of a class that stands for a setting is read somewhere in the class, its relatives, or through another object')
    rep.rule('argument-effect', 'every parameter of a public method or function is used (not ignored or overwritten before it is read)')
    own = {}
    D = Deps(prog)
    deps = {C: {strip(d).split('.')[0] for d in D.declared_deps(C, 'digest')} for C in prog.all_classes() if C.is_traits and C.find_trait('digest') is not None}
    for C in prog.all_classes():
        s = own.setdefault(C, set())
        for f in C.methods.values():
            me = f.params[0] if f.params else None
            for n in ast.walk(f.node):
                if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == me:
                    # what the class assigns itself is state or a result, not a setting
                    s |= {n.attr, n.attr.rstrip('_')} if n.attr.endswith('_') else {n.attr}
    for C in prog.all_classes():
        if not C.is_traits or 'demo' in C.module.name:
            continue
        for name, t in C.attrs.items():
            if name.startswith('_') or t.is_property or name == 'digest' or t.kind in ('Event', 'Button', 'Delegate', 'Enum') and (t.kind != 'Enum' or len(t.enum_values() or ()) <= 1):
                continue
            fam = set(C.mro()) | set(prog.subclasses(C))
            if any(name in k.attrs and k is not C for k in prog.subclasses(C)) or any(name in deps.get(k, ()) for k in fam):
                continue
            rep.count('declared_traits')
            if not any(name in own.get(k, ()) or deps_name(k, name) for k in fam) and not elsewhere(prog, C, name):
                rep.viol('declared-effect', f'{C.name}.{name}', f'{name} of {C.name} is never read: setting it has no effect', C.where)
    from .p24 import all_funcs

    for f, C, q in all_funcs(prog):
        if f.name.startswith('_') or '.' in q.replace(C.name + '.', '') if C else f.name.startswith('_'):
            continue
        if 'demo' in f.module.name or {'abstractmethod', 'overload'} & set(f.decorator_names()) or trivial(f.node):
            continue
        if f.decorator('on_trait_change') is not None or f.decorator('observe') is not None:
            continue
        if C is not None and any(g is not None and g.cls is not C and f.name in k.methods for k in C.mro()[1:] for g in [k.methods.get(f.name)]):
            continue
        params = f.params[(1 if C is not None and 'staticmethod' not in f.decorator_names() else 0):] + list(f.kwonly)
        for p in params:
            if p.startswith('_'):
                continue
            rep.count('arguments')
            how = ignored(f.node, p)
            # a parameter that only matters to some subclasses
            if how and C is not None and any(p in k.methods[f.name].params and not ignored(k.methods[f.name].node, p) for k in prog.subclasses(C) if k is not C and f.name in k.methods):
                continue
            if how:
                rep.viol('argument-effect', f'{f.module.name}:{q}:{p}', f'the parameter {p} of {q} is {how}', f.where)
    rep.floor('declared_traits', 40)
    rep.floor('arguments', 60)


def deps_name(K, name):
    """the class delegates the name, observes it or asks for it by name"""
    for n in ast.walk(K.node):
        if isinstance(n, ast.Constant) and isinstance(n.value, str) and name in n.value.replace(':', '.').replace('[]', '').split('.'):
            p = getattr(n, '_parent', None)
            while isinstance(p, (ast.List, ast.Tuple)):
                p = p._parent
            if isinstance(p, ast.Call):
                d = p.func.attr if isinstance(p.func, ast.Attribute) else getattr(p.func, 'id', '')
                if d in ('Delegate', 'DelegatesTo', 'on_trait_change', 'observe', 'getattr', 'trait_get', 'get'):
                    return True
    return False


def elsewhere(prog, C, name):
    """is the attribute read from an object that may be of this class"""
    fam = {k.name for k in C.mro()} | {k.name for k in prog.subclasses(C)}
    for m in prog.modules.values():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and n.attr == name:
                if isinstance(n.value, ast.Name) and n.value.id == 'self':
                    p = n
                    while p is not None and not isinstance(p, ast.ClassDef):
                        p = getattr(p, '_parent', None)
                    if p is not None and p.name not in fam:
                        continue
                return True
    return False


def trivial(fn):
    body = [s for s in fn.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)) and not isinstance(s, ast.Pass)]
    return not body or len(body) == 1 and isinstance(body[0], ast.Raise)


def ignored(fn, p):
    loads = [n for n in ast.walk(fn) if isinstance(n, ast.Name) and n.id == p and isinstance(n.ctx, ast.Load)]
    if not loads:
        return 'never used' if not any(isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('locals', 'vars') for n in ast.walk(fn)) else None
    # only compared with one number: all other values are the same
    consts = set()
    for n in loads:
        c = getattr(n, '_parent', None)
        other = [x for x in [c.left, *c.comparators] if x is not n] if isinstance(c, ast.Compare) else []
        if len(other) == 1 and isinstance(other[0], ast.Constant) and isinstance(other[0].value, (int, float)) and not isinstance(other[0].value, bool):
            consts.add(other[0].value)
        else:
            consts = None
            break
    if consts is not None and len(consts) == 1:
        return f'only compared with {consts.pop()}: all other values do the same'
    # overwritten by a statement that is always executed before any use
    for s in fn.body:
        if isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id == p for t in s.targets) and not any(isinstance(n, ast.Name) and n.id == p and isinstance(n.ctx, ast.Load) for n in ast.walk(s.value)):
            return f'overwritten by {ast.unparse(s)[:50]} before it is used'
        if any(isinstance(n, ast.Name) and n.id == p for n in ast.walk(s)):
            return None
    return None
