"""P27: equal configurations have equal digests, in every object and every process."""

import ast

from .deps import Deps, strip
from .model import dotted, walk_no_nested
from .rule_digest import DigestCoverage

VALUE = {'Float', 'CFloat', 'Int', 'CInt', 'Bool', 'CBool', 'Str', 'CStr', 'Enum', 'Map', 'Range', 'CArray', 'Array', 'File', 'Directory', 'Constant',
         'CLong', 'Long', 'Complex', 'ArrayOrNone', 'ReadOnly'}
# (class, trait) -> reason
VALUE_OK = {
    ('SamplesBuffer', 'dtype'): 'a numpy data type is printed by its name',
    ('TimeSamples', 'data'): 'enters through its checksum',
}


def value_like(prog, t, depth=0):
    """None when every value of the trait prints the same for equal values, else the reason why not"""
    if t.kind in VALUE:
        return None
    if t.kind in ('Union', 'Either', 'Trait'):
        for a in t.call.args if t.call else []:
            nm = (dotted(a.func if isinstance(a, ast.Call) else a) or '').split('.')[-1]
            if nm in ('Instance', 'Callable', 'Any', 'Set', 'CSet', 'WeakRef') or nm == 'List' and isinstance(a, ast.Call) and any('Instance' in (dotted(x.func if isinstance(x, ast.Call) else x) or '') for x in a.args):
                return f'may hold {nm}'
        return None
    if t.kind in ('List', 'CList', 'Tuple'):
        for a in t.call.args if t.call else []:
            nm = (dotted(a.func if isinstance(a, ast.Call) else a) or '').split('.')[-1]
            if nm in ('Instance', 'Callable', 'WeakRef') or prog.class_of_expr(a, t.cls.module) is not None:
                return 'holds objects, which print as memory addresses'
        if t.element_class(prog) is not None:
            return 'holds objects, which print as memory addresses'
        return None
    if t.kind in ('Set', 'CSet'):
        return 'is a set, whose printed order is not determined'
    if t.kind == 'Dict':
        for a in [x for x in (t.call.args if t.call else [])] + [k.value for k in (t.call.keywords if t.call else []) if k.arg in ('key_trait', 'value_trait')]:
            if (dotted(a.func if isinstance(a, ast.Call) else a) or '').split('.')[-1] in ('Instance', 'Callable'):
                return 'holds objects, which print as memory addresses'
        return None
    if t.kind in ('Instance', 'Callable', 'WeakRef', 'Supports', 'Event', 'Button'):
        return 'is an object, which prints as a memory address'
    return None


def array_test(t, x):
    """does the condition tell arrays from single numbers?"""
    for n in ast.walk(t):
        if isinstance(n, ast.Attribute) and n.attr in ('ndim', 'shape') and isinstance(n.value, ast.Name) and n.value.id == x:
            return True
        if isinstance(n, ast.Call) and (dotted(n.func) or '').split('.')[-1] in ('isinstance', 'isscalar', 'ndim', 'shape', 'len'):
            if any(isinstance(k, ast.Name) and k.id == x for k in ast.walk(n)):
                return True
    return False


def check(prog, rep):
    rep.rule('digest-identity', 'every entry of the dependencies of a digest is a value, or the digest of an object: never an object, a collection of objects or a set')
    rep.rule('equal-numbers', 'the bytes of a value enter a digest only for arrays: a number of numpy and the equal number of python print the same, but have different bytes')
    rep.rule('digest-fresh-entropy', 'what enters a digest does not depend on identities, hash seeds, clocks or random numbers')
    D = Deps(prog)
    R = D.R
    for C in prog.all_classes():
        if not C.is_traits:
            continue
        for n, t in C.all_traits().items():
            if not (t.is_property and (n == 'digest' or n.endswith('digest'))):
                continue
            g = C.find_method(f'_get_{n}')
            if g is None:
                continue
            for d in D.declared_deps(C, n):
                p = tuple(x for x in strip(d).replace(':', '.').split('.') if x)
                rep.count('entry_obligations')
                items = p and p[-1] == 'items'
                p = tuple(x for x in p if x != 'items')
                if not p:
                    continue
                K = C if len(p) == 1 else R.typeof(C, p[:-1])
                if K is None:
                    continue
                tt = K.find_trait(p[-1])
                for _ in range(4):
                    if tt is not None and tt.kind == 'Delegate':
                        K = R.typeof(K, (tt.arg(0).value,))
                        nm = tt.arg(1).value if tt.arg(1) is not None else tt.name
                        tt = K.find_trait(nm) if K else None
                if tt is None or any((k.name, tt.name) in VALUE_OK for k in K.mro()):
                    continue
                why = None
                if tt.is_property:
                    k = R.typeof(C, p)
                    if k is not None:
                        why = 'is an object, which prints as a memory address'
                else:
                    why = value_like(prog, tt)
                if why:
                    rep.viol('digest-identity', f'{C.name}.{n}:{d}', f'the digest of {C.name} contains {d}, which {why}: equal configurations get different digests', C.where)
    # functions that compute digests
    import hashlib  # noqa: F401  (documents the only allowed source of digests)
    from .p09 import BANNED_PREFIX, ext_name

    m = prog.modules.get('acoular.internal')
    funcs = []
    if m is not None:
        funcs += [(f, None) for f in m.functions.values()]
    for C in prog.all_classes():
        for f in C.method_list:
            if f.name.startswith('_get_') and ('digest' in f.name or 'checksum' in f.name or f.name == '_get_basename') or 'digest' in f.name:
                funcs.append((f, C))
    for f, C in funcs:
        rep.count('function_obligations')
        for n in ast.walk(f.node):
            if isinstance(n, (ast.Name, ast.Attribute)) and isinstance(n.ctx, ast.Load):
                x = ext_name(prog, f.module, n)
                if x and any(x.startswith(p) if p.endswith('.') else x == p for p in BANNED_PREFIX):
                    rep.viol('digest-fresh-entropy', f'{f.qual}:{x}', f'{f.qual} uses {x}', f'{f.module.rel}:{n.lineno} {f.qual}')
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ('tobytes', 'tostring', 'dumps') and isinstance(n.func.value, ast.Name) and n.func.value.id in f.params and C is None:
                x, par, ok = n.func.value.id, n, False
                while par is not None and par is not f.node:
                    ok = ok or isinstance(par, (ast.If, ast.IfExp)) and array_test(par.test, x)
                    ok = ok or any(isinstance(b, ast.If) and array_test(b.test, x) for b in f.node.body if b.lineno < n.lineno)
                    par = getattr(par, '_parent', None)
                if not ok:
                    rep.viol('equal-numbers', f'{f.qual}:{x}', f'{f.qual} uses the bytes of {x} also where it is a single number of numpy: equal configurations get different digests', f'{f.module.rel}:{n.lineno} {f.qual}')
            if isinstance(n, ast.Call) and dotted(n.func) in ('set', 'frozenset') or isinstance(n, (ast.Set, ast.SetComp)):
                par = getattr(n, '_parent', None)
                if not (isinstance(par, ast.Call) and dotted(par.func) in ('sorted', 'len')) and not (isinstance(par, ast.Compare)):
                    rep.viol('digest-fresh-entropy', f'{f.qual}:set', f'{f.qual} builds a set, whose order is not determined', f'{f.module.rel}:{n.lineno} {f.qual}')
    rep.floor('entry_obligations', 350)
    rep.floor('function_obligations', 60)
