"""P20: every name, attribute and call a computation reaches exists and fits."""

import ast
import builtins
import symtable

from .model import Func, dotted, walk_no_nested
from .p24 import all_funcs

OBJECT = set(dir(object)) | {'__dict__', '__name__', '__module__', '__qualname__', '__bases__', '__mro__'}
HASTRAITS = OBJECT | set('''
add_class_trait add_trait add_trait_listener all_trait_names base_trait class_default_traits_view class_editable_traits
class_trait_names class_trait_view class_trait_view_elements class_traits class_visible_traits clone_traits configure_traits
copy_traits copyable_trait_names default_traits_view edit_traits editable_traits has_traits_interface observe on_trait_change
print_traits remove_trait remove_trait_listener reset_traits set_trait_dispatch_handler sync_trait trait trait_context
trait_get trait_names trait_set trait_setq trait_subclasses trait_view trait_view_elements trait_views traits validate_trait
visible_traits traits_init traits_inited trait_added trait_modified trait_property_changed trait_items_event wrappers
_trait_change_notify _trait_veto_notify _trait_change_notifications __prefix_trait__ _trait _instance_traits _notifiers
_each_trait_method _flush_traits_cache _set_traits_cache _trait_view _trait_listener _on_trait_change _add_class_trait
_class_traits __getstate__ __setstate__ __deepcopy__ __base_traits__ __class_traits__ _init_trait_listeners
_init_trait_observers _post_init_trait_listeners _post_init_trait_observers
'''.split())
NOT_CALLABLE = {'Float', 'Int', 'CInt', 'CFloat', 'Bool', 'CBool', 'Str', 'CStr', 'Enum', 'Map', 'Range', 'List', 'CList', 'Dict',
                'Tuple', 'CArray', 'Array', 'CSet', 'Set', 'File', 'Directory', 'CLong', 'Long', 'Complex', 'ArrayOrNone', 'Event',
                'Button'}
# base methods whose job is to be overridden: (class, method)
GUFUNC = {'guvectorize'}


# ---------------------------------------------------------------- names
def check_names(prog, rep):
    rep.rule('name-exists', 'every name used in a function, class body or module is bound in that scope, an enclosing one, the module or builtins')
    for m in prog.modules.values():
        top = symtable.symtable(m.text, m.rel, 'exec')
        bound = {s.get_name() for s in top.get_symbols() if s.is_assigned() or s.is_imported() or s.is_namespace()}
        bound |= {'__file__', '__name__', '__doc__', '__path__', '__package__', '__spec__', '__loader__', '__builtins__'}
        open_star = False
        for sm in m.star_imports:
            if sm in prog.modules:
                other = prog.modules[sm]
                bound |= {s.get_name() for s in symtable.symtable(other.text, other.rel, 'exec').get_symbols() if s.is_assigned() or s.is_imported()}
            else:
                open_star = True

        def globals_declared(t):
            for s in t.get_symbols():
                if s.is_declared_global() and s.is_assigned():
                    bound.add(s.get_name())
            for k in t.get_children():
                globals_declared(k)

        globals_declared(top)

        def walk(t):
            for s in t.get_symbols():
                n = s.get_name()
                if not s.is_referenced():
                    continue
                rep.count('name_obligations')
                glob = s.is_global() or (t is top)
                if glob and n not in bound and not hasattr(builtins, n) and not open_star:
                    rep.viol('name-exists', f'{m.rel}:{t.get_name()}.{n}', f'name {n} used in {t.get_name()} is defined nowhere', f'{m.rel}:{t.get_lineno()}')
            for k in t.get_children():
                walk(k)

        walk(top)
        for n in ast.walk(m.tree):
            # from .x import y : y exists in module x
            if isinstance(n, ast.ImportFrom):
                mod = m._abs(n.level, n.module or '') if n.level else n.module
                if mod in prog.modules:
                    for a in n.names:
                        if a.name == '*':
                            continue
                        rep.count('import_obligations')
                        if prog.resolve_global(prog.modules[mod], a.name) is None and f'{mod}.{a.name}' not in prog.modules and a.name not in prog.modules[mod].nested_imports and not defined_in(prog.modules[mod], a.name):
                            rep.viol('name-exists', f'{m.rel}:import.{mod}.{a.name}', f'{a.name} imported from {mod} does not exist there', f'{m.rel}:{n.lineno}')


def defined_in(module, name):
    top = symtable.symtable(module.text, module.rel, 'exec')
    try:
        s = top.lookup(name)
    except KeyError:
        return False
    return s.is_assigned() or s.is_imported()


# ---------------------------------------------------------------- attributes
def has_attr(C, name):
    if C.find_method(name) is not None or C.find_trait(name) is not None:
        return True
    if C.is_traits:
        if name in HASTRAITS:
            return True
        # mapped traits have a shadow attribute name_
        if name.endswith('_') and not name.endswith('__'):
            t = C.find_trait(name[:-1])
            if t is not None and t.kind in ('Map', 'Trait', 'PrefixMap'):
                return True
            # a subclass switches the option off: what uses it is not meant for it
            if t is not None and t.kind == 'Enum' and t.enum_values() == [None]:
                return True
    elif name in OBJECT:
        return True
    # instance attributes assigned in methods of ordinary (non strict) classes
    if not strict(C):
        for K in C.mro():
            for f in K.method_list:
                self_ = f.params[0] if f.params else None
                for n in ast.walk(f.node):
                    if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and n.attr == name and isinstance(n.value, ast.Name) and n.value.id == self_:
                        return True
            for s in ast.walk(K.node):
                if isinstance(s, (ast.Import, ast.ImportFrom)):
                    if any((a.asname or a.name) == name for a in s.names):
                        return True
    return False


def strict(C):
    return bool({'HasStrictTraits', 'ABCHasStrictTraits'} & C.external_bases())


def known_base(C):
    """every external base of the class is one whose attributes are known"""
    return C.external_bases() <= {'HasTraits', 'HasStrictTraits', 'ABCHasStrictTraits', 'ABCHasTraits', 'object', 'ABC'} | {k.name for k in C.mro()}


class Types:
    """classes of expressions: self, traits holding objects, constructor calls, locals bound once"""

    def __init__(self, prog):
        self.prog = prog

    def locals_of(self, func, C, env=None):
        env = dict(env or {})
        fn = func.node
        if C is not None and func.params and 'staticmethod' not in func.decorator_names():
            env[func.params[0]] = ('type', C) if 'classmethod' in func.decorator_names() else ('obj', C)
        own = set(func.params) | set(func.kwonly)
        stores = {}
        for n in walk_no_nested(fn):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                stores.setdefault(n.id, []).append(n)
        for p in own - ({func.params[0]} if C is not None and func.params else set()):
            env.pop(p, None)
        for x in stores:
            env.pop(x, None)
        for _ in range(3):
            for x, ns in stores.items():
                if x in own:
                    continue
                ts = {self.bound(n, func.module, env) for n in ns}
                if len(ts) == 1 and None not in ts:
                    env[x] = ts.pop()
        return env

    def bound(self, n, module, env):
        p = getattr(n, '_parent', None)
        if isinstance(p, ast.Assign) and n in p.targets:
            return self.of(p.value, module, env)
        if isinstance(p, (ast.For, ast.comprehension)) and p.target is n:
            return self.elem(p.iter, module, env)
        return None

    def elem(self, e, module, env):
        if isinstance(e, ast.Attribute):
            o = self.of(e.value, module, env)
            if o is not None and o[0] == 'obj':
                t = o[1].find_trait(e.attr)
                if t is not None:
                    c = t.element_class(self.prog)
                    if c is not None:
                        return ('obj', c)
        return None

    def of(self, e, module, env):
        if isinstance(e, ast.Name):
            if e.id in env:
                return env[e.id]
            return None
        if isinstance(e, ast.Attribute):
            o = self.of(e.value, module, env)
            if o is not None and o[0] == 'obj':
                t = o[1].find_trait(e.attr)
                if t is not None:
                    seen = 0
                    while t is not None and t.kind == 'Delegate' and seen < 5:
                        seen += 1
                        a = t.arg(0)
                        b = t.arg(1)
                        src = o[1].find_trait(a.value) if isinstance(a, ast.Constant) else None
                        sc = src.instance_class(self.prog) if src is not None else None
                        if sc is None:
                            return None
                        nm = b.value if isinstance(b, ast.Constant) else t.name
                        o = ('obj', sc)
                        t = sc.find_trait(nm)
                    c = t.instance_class(self.prog) if t is not None else None
                    if c is not None:
                        return ('obj', c)
            return None
        if isinstance(e, ast.Call):
            c = self.prog.class_of_expr(e.func, module) if not (isinstance(e.func, ast.Name) and e.func.id in env) else None
            if c is not None:
                return ('obj', c)
            return None
        if isinstance(e, ast.Subscript):
            return self.elem(e.value, module, env) if not isinstance(e.slice, ast.Slice) else None
        return None


def concrete_users(prog, func, C):
    """concrete classes on whose objects the method runs"""
    out = []
    for K in prog.subclasses(C):
        if K.abstract_methods():
            continue
        own = K.find_method(func.name)
        if own is not None and own.node is func.node or inherits_call(K, func):
            out.append(K)
    return out or [C]


def inherits_call(K, func):
    """is func reached by a super() call or as unbound method on objects of K"""
    for c in K.mro():
        f = c.methods.get(func.name)
        if f is not None and f.node is func.node:
            return True
        if f is None:
            continue
        for n in ast.walk(f.node):
            if isinstance(n, ast.Attribute) and n.attr == func.name and isinstance(n.value, ast.Call) and isinstance(n.value.func, ast.Name) and n.value.func.id == 'super':
                break
        else:
            return False
    return False


def guarded_attr(node, name):
    """hasattr / getattr / isinstance test, or try with a handler for AttributeError, around the access"""
    n = node
    while n is not None and not isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Module)):
        p = getattr(n, '_parent', None)
        if isinstance(p, ast.Try) and n in p.body:
            for h in p.handlers:
                d = ast.unparse(h.type) if h.type is not None else 'AttributeError'
                if 'AttributeError' in d or d in ('Exception', 'BaseException'):
                    return True
        if isinstance(p, (ast.If, ast.IfExp, ast.BoolOp)):
            t = p.test if not isinstance(p, ast.BoolOp) else p
            for k in ast.walk(t):
                if isinstance(k, ast.Call) and isinstance(k.func, ast.Name) and k.func.id in ('hasattr', 'isinstance', 'getattr'):
                    return True
        for field in ('body', 'orelse', 'finalbody'):
            L = getattr(p, field, None)
            if isinstance(L, list) and any(x is n for x in L):
                for x in L[:next(i for i, x in enumerate(L) if x is n)]:
                    if isinstance(x, ast.If) and isinstance(x.body[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break)) and any(
                            isinstance(k, ast.Call) and isinstance(k.func, ast.Name) and k.func.id in ('hasattr', 'isinstance') for k in ast.walk(x.test)):
                        return True
        n = p
    return False


def check_attributes(prog, rep):
    rep.rule('attribute-exists', 'every attribute used of an object of a known class is a trait or method of that class (of every concrete class the method serves)')
    rep.rule('call-fits', 'the arguments of a call to a known function, method, constructor or compiled kernel can be bound to its parameters')
    rep.rule('not-callable', 'a trait holding a plain value is not called')
    T = Types(prog)
    for func, C, qual in all_funcs(prog):
        outer = outer_funcs(prog, func, C)
        users = [None]
        if C is not None:
            top = outer[0] if outer else func
            users = concrete_users(prog, top, C)
        rep.count('functions')
        for K in users:
            env = {}
            for g in outer:
                env = T.locals_of(g, K, env)
            if outer:
                env = T.locals_of(func, None, env)
            else:
                env = T.locals_of(func, K, env)
            self_ = (outer[0] if outer else func).params[:1]
            self_ = self_[0] if K is not None and self_ else None
            for n, cond in nodes_of(func, prog, K, self_):
                if isinstance(n, ast.Attribute):
                    o = T.of(n.value, func.module, env)
                    if o is None or not known_base(o[1]):
                        continue
                    rep.count('attribute_obligations')
                    X = o[1]
                    if has_attr(X, n.attr):
                        continue
                    # declared with a base class: some subclass may have it
                    is_self = isinstance(n.value, ast.Name) and o[1] is K and n.value.id == self_
                    if is_self and cond and any(has_attr(S, n.attr) for S in users):
                        continue
                    if not is_self and everywhere_below(prog, X, n.attr):
                        continue
                    if guarded_attr(n, n.attr):
                        continue
                    what = 'assigned' if isinstance(n.ctx, ast.Store) else 'used'
                    rep.viol('attribute-exists', f'{qual}:{ast.unparse(n)}',
                             f'{ast.unparse(n)} is {what}, but {X.name} has no attribute {n.attr}', f'{func.module.rel}:{n.lineno} {qual}')
                elif isinstance(n, ast.Call):
                    check_call(prog, rep, T, func, K, env, n, qual)


def everywhere_below(prog, X, name):
    """every class one can make objects of below X (those nobody derives from) has the attribute"""
    below = [S for S in prog.subclasses(X) if S is not X]
    leaves = [S for S in below if not any(S in D.mro() and D is not S for D in below)]
    return bool(leaves) and all(has_attr(S, name) or not known_base(S) for S in leaves)


def nodes_of(func, prog=None, K=None, self_=None):
    """(node, conditional) of the function without nested functions and classes; branches that objects of class K never take are
    left out, and nodes below a condition that the class does not decide are marked"""
    def truth(t):
        return class_test(t, prog, func.module, K, self_) if K is not None and self_ is not None else None

    def visit(n, cond):
        yield n, cond
        if isinstance(n, (ast.If, ast.IfExp)):
            v = truth(n.test)
            yield from visit(n.test, cond)
            body = n.body if isinstance(n.body, list) else [n.body]
            other = n.orelse if isinstance(n.orelse, list) else [n.orelse]
            if v is not False:
                for k in body:
                    yield from visit(k, cond or v is None)
            if v is not True:
                for k in other:
                    yield from visit(k, cond or v is None)
            return
        if isinstance(n, ast.BoolOp):
            c = cond
            for k in n.values:
                v = truth(k)
                yield from visit(k, c)
                if v is not None and v != isinstance(n.op, ast.And):
                    return
                c = c or v is None
            return
        if isinstance(n, (ast.While, ast.For)):
            for k in ast.iter_child_nodes(n):
                yield from visit(k, cond)
            return
        for k in ast.iter_child_nodes(n):
            if not isinstance(k, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                yield from visit(k, cond)

    def block(stmts, cond):
        for s in stmts:
            if not isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                yield from visit(s, cond)

    yield from block(func.node.body, False)
    for d in func.node.args.defaults + [x for x in func.node.args.kw_defaults if x is not None]:
        yield from visit(d, False)


def class_test(t, prog, module, K, self_):
    """value of a condition on the class of self, or None"""
    if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
        v = class_test(t.operand, prog, module, K, self_)
        return None if v is None else not v
    if isinstance(t, ast.BoolOp):
        vs = [class_test(x, prog, module, K, self_) for x in t.values]
        if isinstance(t.op, ast.And):
            return False if False in vs else (True if all(v is True for v in vs) else None)
        return True if True in vs else (False if all(v is False for v in vs) else None)
    if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], (ast.In, ast.NotIn)) and isinstance(t.left, ast.Constant):
        u = ast.unparse(t.comparators[0])
        if u in (f'{self_}.__class__.__name__', f'type({self_}).__name__'):
            v = str(t.left.value) in K.name
            return v if isinstance(t.ops[0], ast.In) else not v
    if isinstance(t, ast.Call) and isinstance(t.func, ast.Name) and t.func.id in ('isinstance', 'hasattr') and len(t.args) == 2:
        if isinstance(t.args[0], ast.Name) and t.args[0].id == self_:
            if t.func.id == 'hasattr':
                return has_attr(K, t.args[1].value) if isinstance(t.args[1], ast.Constant) else None
            cs = t.args[1].elts if isinstance(t.args[1], ast.Tuple) else [t.args[1]]
            ks = [prog.class_of_expr(c, module) for c in cs]
            if None not in ks:
                return any(k in K.mro() for k in ks)
    return None


def outer_funcs(prog, func, C):
    out = []
    p = getattr(func.node, '_parent', None)
    while p is not None:
        if isinstance(p, (ast.FunctionDef, ast.AsyncFunctionDef)):
            cls = C if isinstance(getattr(p, '_parent', None), ast.ClassDef) else None
            out.insert(0, Func(func.module, p, cls))
        p = getattr(p, '_parent', None)
    return out


def super_target(K, C, name):
    """method found by super().name() in a method of class C on an object of class K"""
    mro = K.mro()
    if C not in mro:
        return None
    for c in mro[mro.index(C) + 1:]:
        if name in c.methods:
            return c.methods[name]
    return None


def plain_property(prog, X, name):
    """No getter of the Property returns anything that could be a function."""
    seen = 0
    for C in [X] + [c for c in prog.all_classes() if X in c.mro() and c is not X]:
        g = C.find_method('_get_' + name)
        if g is None:
            return False
        nested = {n.name for n in ast.walk(g.node) if isinstance(n, ast.FunctionDef)}
        for n in ast.walk(g.node):
            if isinstance(n, ast.Lambda):
                return False
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in nested:
                return False
            if not isinstance(n, ast.Return) or n.value is None:
                continue
            seen += 1
            v = n.value
            if isinstance(v, ast.Call) and dotted(v.func) in ('partial', 'functools.partial', 'getattr'):
                return False
            if isinstance(v, ast.Attribute) and isinstance(v.value, ast.Name) and v.value.id == 'self':
                t = C.find_trait(v.attr)
                if C.find_method(v.attr) is not None or (t is not None and t.kind in ('Callable', 'Function', 'Method')):
                    return False
            if isinstance(v, ast.Name) and prog.resolve_global(g.module, v.id) is not None and v.id not in {
                x.id for x in ast.walk(g.node) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)
            }:
                return False
    return seen > 0


def check_call(prog, rep, T, func, K, env, n, qual):
    f = n.func
    where = f'{func.module.rel}:{n.lineno} {qual}'
    if isinstance(f, ast.Attribute):
        if isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) and f.value.func.id == 'super' and not f.value.args and func.cls is not None and K is not None:
            base = K if func.cls in K.mro() else func.cls
            g = super_target(base, func.cls, f.attr)
            if g is not None:
                bind(rep, n, g, 1 if 'staticmethod' not in g.decorator_names() else 0, qual, where)
            elif known_base(base) and f.attr not in (HASTRAITS if base.is_traits else OBJECT):
                rep.viol('attribute-exists', f'{qual}:super().{f.attr}', f'no base class has a method {f.attr}', where)
            return
        o = T.of(f.value, func.module, env)
        if o is not None and known_base(o[1]):
            X = o[1]
            g = X.find_method(f.attr)
            if g is not None:
                if 'property' in g.decorator_names() or any('setter' in d for d in g.decorator_names()):
                    return
                skip = 0 if 'staticmethod' in g.decorator_names() else 1
                if o[0] == 'type' and 'classmethod' not in g.decorator_names():
                    skip = 0
                bind(rep, n, g, skip, qual, where)
                return
            t = X.find_trait(f.attr)
            if t is not None:
                rep.count('call_obligations')
                if t.kind in NOT_CALLABLE or (t.kind == 'Property' and plain_property(prog, X, f.attr)):
                    rep.viol('not-callable', f'{qual}:{ast.unparse(f)}', f'{ast.unparse(f)} is a trait of type {t.kind} and cannot be called', where)
            return
        r = prog.resolve_dotted(func.module, f) if not (isinstance(root(f), ast.Name) and (root(f).id in env or is_local(func, root(f).id))) else None
    elif isinstance(f, ast.Name):
        if f.id in env or is_local(func, f.id):
            return
        r = prog.resolve_global(func.module, f.id)
    else:
        return
    if r is None:
        return
    if r[0] == 'func':
        g = r[1]
        if g.cls is not None and isinstance(f, ast.Attribute):
            # Class.method(obj, ...)
            bind(rep, n, g, 1 if 'classmethod' in g.decorator_names() else 0, qual, where)
        elif g.cls is None:
            bind(rep, n, g, 0, qual, where)
    elif r[0] == 'class':
        c = r[1]
        init = c.find_method('__init__')
        if init is not None and not c.is_traits:
            if known_base(c):
                bind(rep, n, init, 1, qual, where)
        elif c.is_traits and known_base(c):
            names = {k.arg for k in n.keywords if k.arg is not None}
            if init is not None:
                if init.kwarg is None:
                    bind(rep, n, init, 1, qual, where)
                    return
                names -= set(init.params) | set(init.kwonly)
            elif n.args:
                rep.viol('call-fits', f'{qual}:{c.name}', f'{c.name} is constructed with positional arguments', where)
            for k in names:
                rep.count('call_obligations')
                if not has_attr(c, k):
                    rep.viol('call-fits', f'{qual}:{c.name}.{k}', f'{c.name} has no trait {k}', where)


def root(e):
    while isinstance(e, (ast.Attribute, ast.Call, ast.Subscript)):
        e = e.value if not isinstance(e, ast.Call) else e.func
    return e


def is_local(func, name):
    fs = [func.node]
    p = getattr(func.node, '_parent', None)
    while p is not None:
        if isinstance(p, (ast.FunctionDef, ast.AsyncFunctionDef)):
            fs.append(p)
        p = getattr(p, '_parent', None)
    for f in fs:
        a = f.args
        if name in [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs] or name in (a.vararg.arg if a.vararg else None, a.kwarg.arg if a.kwarg else None):
            return True
        for n in walk_no_nested(f):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and n.id == name:
                return True
            if isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n.name == name and n is not f:
                return True
    return False


TRANSPARENT = {'njit', 'jit', 'abstractmethod', 'staticmethod', 'classmethod', 'cached_property', 'lru_cache', 'wraps',
               'on_trait_change', 'observe', 'deprecated_alias', 'contextmanager', 'vectorize'}


def bind(rep, call, g, skip, qual, where):
    """can the arguments of the call be bound to the parameters of g"""
    decs = g.decorator_names()
    gu = 'guvectorize' in decs
    if any(d not in TRANSPARENT and d not in GUFUNC for d in decs):
        return
    if any(isinstance(a, ast.Starred) for a in call.args) or any(k.arg is None for k in call.keywords):
        return
    rep.count('call_obligations')
    what = ast.unparse(call.func)
    npos = len(call.args)
    if gu:
        nin = outputs_of(g)
        total = len(g.params)
        if nin is None:
            nin = total - 1
        if not (nin <= npos <= total):
            rep.viol('call-fits', f'{qual}:{what}', f'{what} is given {npos} arguments; the compiled function takes {nin} inputs', where)
        return
    params = g.params[skip:]
    a = g.node.args
    defaults = len(a.defaults)
    posonly = [x.arg for x in a.posonlyargs]
    if npos > len(params) and g.vararg is None:
        rep.viol('call-fits', f'{qual}:{what}', f'{what} takes {len(params)} arguments, {npos} are given', where)
        return
    given = set(params[:npos])
    for k in call.keywords:
        if k.arg in given:
            rep.viol('call-fits', f'{qual}:{what}.{k.arg}', f'{what} gets {k.arg} twice', where)
        if k.arg not in params and k.arg not in g.kwonly and g.kwarg is None or k.arg in posonly:
            rep.viol('call-fits', f'{qual}:{what}.{k.arg}', f'{what} has no parameter {k.arg}', where)
        given.add(k.arg)
    required = params[: len(g.params) - skip - defaults] if defaults else params
    missing = [p for p in required if p not in given]
    kwreq = [x.arg for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is None and x.arg not in given]
    if missing + kwreq:
        rep.viol('call-fits', f'{qual}:{what}', f'{what} is called without {", ".join(missing + kwreq)}', where)


def outputs_of(g):
    """number of inputs of a generalised ufunc, from its layout signature"""
    d = g.decorator('guvectorize')
    if isinstance(d, ast.Call):
        for a in d.args:
            if isinstance(a, ast.Constant) and isinstance(a.value, str) and '->' in a.value:
                left = a.value.split('->')[0]
                return left.count('(')
    return None


# ---------------------------------------------------------------- traits
def check_traits(prog, rep):
    rep.rule('property-getter', 'every Property has a getter, and every getter, setter, default and change handler named after a trait has that trait')
    rep.rule('delegate-exists', 'a delegated attribute exists in the class it is delegated to')
    rep.rule('listener-exists', 'a handler listens to attributes that exist')
    for C in prog.all_classes():
        if not C.is_traits or not known_base(C):
            continue
        abstract = bool(C.abstract_methods())
        for n, t in C.all_traits().items():
            if t.is_property:
                rep.count('trait_obligations')
                explicit = t.arg(0) is not None or t.kw('fget') is not None or t.kw('getter') is not None
                if not explicit and C.find_method(f'_get_{n}') is None and not all_subclasses_define(prog, C, n):
                    rep.viol('property-getter', f'{C.name}.{n}', f'Property {n} of {C.name} has no getter', t.where)
            if t.kind == 'Delegate':
                rep.count('trait_obligations')
                a = t.arg(0) or t.kw('delegate')
                b = t.arg(1) or t.kw('prefix')
                if isinstance(a, ast.Constant):
                    s = C.find_trait(a.value)
                    if s is None:
                        rep.viol('delegate-exists', f'{C.name}.{n}', f'{n} is delegated to {a.value}, which {C.name} does not have', t.where)
                        continue
                    sc = s.instance_class(prog)
                    nm = b.value if isinstance(b, ast.Constant) and isinstance(b.value, str) and b.value else n
                    if nm.endswith('*'):
                        nm = nm[:-1] + n
                    if sc is not None and known_base(sc) and not has_attr(sc, nm) and not any(has_attr(k, nm) for k in prog.subclasses(sc)):
                        rep.viol('delegate-exists', f'{C.name}.{n}', f'{n} is delegated to {a.value}.{nm}, which {sc.name} does not have', t.where)
        for f in C.method_list:
            base = None
            for pre, post in (('_get_', ''), ('_set_', ''), ('_validate_', ''), ('_', '_default'), ('_', '_changed'), ('_', '_fired')):
                if f.name.startswith(pre) and f.name.endswith(post) and len(f.name) > len(pre) + len(post):
                    base = f.name[len(pre): len(f.name) - len(post) if post else None]
                    break
            if base is None or f.name.startswith('__') or f.decorator('on_trait_change') is not None or f.decorator('observe') is not None:
                continue
            if called_somewhere(prog, f.name):
                continue
            rep.count('trait_obligations')
            if not any(k.find_trait(base) is not None or (base.endswith('_items') and k.find_trait(base[:-6]) is not None) for k in [C] + prog.subclasses(C)):
                rep.viol('property-getter', f'{C.name}.{f.name}', f'{f.name} belongs to no trait and is never called', f.where)


def all_subclasses_define(prog, C, n):
    subs = [k for k in prog.subclasses(C) if k is not C]
    return bool(subs) and all(k.find_method(f'_get_{n}') is not None or k.find_trait(n) is not C.find_trait(n) for k in subs)


def called_somewhere(prog, name):
    got = getattr(prog, '_attr_names', None)
    if got is None:
        got = set()
        for m in prog.modules.values():
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Attribute):
                    got.add(n.attr)
                elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
                    got.add(n.id)
        prog._attr_names = got
    return name in got


def listener_names(text):
    out = []
    for part in text.split(','):
        part = part.strip()
        out.append(part)
    return out


def check_listeners(prog, rep):
    for C in prog.all_classes():
        if not C.is_traits or not known_base(C):
            continue
        for f in C.method_list:
            for dn in ('on_trait_change', 'observe'):
                d = f.decorator(dn)
                if not isinstance(d, ast.Call) or not d.args:
                    continue
                names = prog.str_list(d.args[0], C.module)
                for nm in names or []:
                    rep.count('listener_obligations')
                    for e in expand(nm):
                        bad = unresolved(prog, C, e)
                        if bad is not None:
                            rep.viol('listener-exists', f'{C.name}.{f.name}:{e}', f'handler {f.name} listens to {e}; {bad}', f.where)


def expand(name):
    """first-level alternatives of an extended trait name"""
    name = name.strip()
    if '[' in name and not name.endswith('[]'):
        pre, rest = name.split('[', 1)
        inner, post = rest.split(']', 1)
        return [x for alt in inner.split(',') for x in expand(pre + alt.strip() + post)]
    return [name]


def unresolved(prog, C, name):
    import re
    parts = [p for p in re.split(r'[.:]', name) if p]
    K = C
    for i, p in enumerate(parts):
        p = p.replace('[]', '')
        if K is None or p in ('items', '*', '+') or not p.isidentifier():
            return None
        t = K.find_trait(p)
        if t is None and p.endswith('_items'):
            t = K.find_trait(p[:-6])
        if t is None:
            if i > 0 and any(k.find_trait(p) is not None for k in prog.subclasses(K)):
                return None
            if p in HASTRAITS:
                return None
            return f'{K.name} has no trait {p}'
        K = t.instance_class(prog) or t.element_class(prog)
    return None


def check(prog, rep):
    check_names(prog, rep)
    check_attributes(prog, rep)
    check_traits(prog, rep)
    check_listeners(prog, rep)
    rep.sample({'rule': 'attribute-exists', 'classes': len(prog.all_classes())})
    for k, m in (('name_obligations', 2000), ('attribute_obligations', 2000), ('call_obligations', 200), ('trait_obligations', 200), ('functions', 350)):
        rep.floor(k, m)
