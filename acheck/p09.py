"""P09: results are a function of the configuration: repeated runs give the same data."""

import ast

from .flow import Flow
from .model import dotted, walk_no_nested
from .p24 import all_funcs
from .reads import Reads

RNG = {'RandomState', 'default_rng', 'SeedSequence', 'PCG64', 'MT19937', 'Philox', 'SFC64', 'PCG64DXSM'}
BANNED_PREFIX = ('random.', 'secrets.', 'uuid.', 'time.', 'os.urandom', 'os.getpid', 'numpy.random.', 'threading.get_ident', 'datetime.datetime.now',
                 'datetime.datetime.utcnow', 'datetime.datetime.today', 'datetime.date.today', 'datetime.now', 'builtins.hash', 'builtins.id', 'scipy.random')
NOT_BANNED = ('time.sleep',)
# function -> reason
EXEMPT = {
    'WriteH5.create_filename': 'name of a new file only',
    'HDF5Cache.get_cache_directories': 'listing for the user',
    'HDF5Cache._print_open_files': 'diagnostics',
}
EXEMPT_MODULES = ('acoular.demo', 'acoular.sdinput', 'acoular.version')


def ext_name(prog, m, e):
    if not isinstance(e, (ast.Name, ast.Attribute)):
        return None
    r = prog.resolve_dotted(m, e)
    return r[1] if r and r[0] == 'ext' else None


def seeded(e, fn):
    """does the expression depend on something called seed (trait or parameter)?"""
    defs = {}
    for n in walk_no_nested(fn):
        if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
            defs.setdefault(n.targets[0].id, []).append(n.value)
        if isinstance(n, ast.For):
            for t in ast.walk(n.target):
                if isinstance(t, ast.Name):
                    defs.setdefault(t.id, []).append(n.iter)

    def go(x, d, seen):
        for n in ast.walk(x):
            if isinstance(n, ast.Attribute) and 'seed' in n.attr:
                return True
            if isinstance(n, ast.Name):
                if 'seed' in n.id and n.id not in defs:
                    return True
                if n.id in defs and n.id not in seen and d < 5 and all(go(v, d + 1, seen | {n.id}) for v in defs[n.id]):
                    return True
        return False
    if isinstance(e, ast.Constant):
        return e.value is not None
    # None, for which the generator takes its seed from the system, is one of the values
    todo, done = [e], set()
    while todo:
        x = todo.pop()
        if isinstance(x, ast.IfExp):
            todo += [x.body, x.orelse]
        elif isinstance(x, ast.BoolOp):
            todo += x.values
        elif isinstance(x, ast.Name) and x.id in defs and x.id not in done:
            done.add(x.id)
            todo += defs[x.id]
        elif isinstance(x, ast.Constant) and x.value is None:
            return False
    return go(e, 0, frozenset())


def is_setexpr(prog, m, e, defs, cls, depth=0):
    if isinstance(e, (ast.Set, ast.SetComp)):
        return True
    if isinstance(e, ast.Call):
        d = dotted(e.func)
        if d in ('set', 'frozenset'):
            return True
        x = ext_name(prog, m, e.func)
        if x in ('os.listdir', 'glob.glob', 'os.scandir', 'glob.iglob'):
            return True
        if isinstance(e.func, ast.Attribute) and e.func.attr in ('union', 'intersection', 'difference', 'symmetric_difference'):
            return is_setexpr(prog, m, e.func.value, defs, cls, depth)
        if isinstance(e.func, ast.Attribute) and e.func.attr in ('glob', 'iterdir', 'rglob') and x is None:
            return True
        if d in ('list', 'tuple', 'enumerate', 'reversed', 'iter', 'array', 'asarray') and e.args:
            return is_setexpr(prog, m, e.args[0], defs, cls, depth)
        return False
    if isinstance(e, ast.BinOp) and isinstance(e.op, (ast.BitAnd, ast.BitOr, ast.Sub, ast.BitXor)):
        return is_setexpr(prog, m, e.left, defs, cls, depth) and (isinstance(e.op, ast.Sub) or is_setexpr(prog, m, e.right, defs, cls, depth))
    if isinstance(e, ast.Name) and depth < 4:
        v = defs.get(e.id)
        return bool(v) and all(is_setexpr(prog, m, x, defs, cls, depth + 1) for x in v)
    if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and e.value.id == 'self' and cls is not None:
        t = cls.find_trait(e.attr)
        return t is not None and t.kind in ('Set', 'CSet')
    return False


def check_entropy(prog, rep):
    rep.rule('entropy', 'no computation uses the global random state, an unseeded generator, clock, process or object identity, or the salted hash()')
    rep.rule('rng-state', 'random number generators are created per call from the seed, not kept between calls')
    rep.rule('unordered', 'nothing depends on the iteration order of a set or an unsorted directory listing')
    for f, c, q in all_funcs(prog):
        m = f.module
        if m.name.startswith(EXEMPT_MODULES) or q in EXEMPT:
            continue
        rep.count('functions')
        defs = {}
        for n in walk_no_nested(f.node):
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                defs.setdefault(n.targets[0].id, []).append(n.value)
        for n in walk_no_nested(f.node):
            where = f'{m.rel}:{getattr(n, "lineno", 0)} {q}'
            if isinstance(n, ast.Call):
                x = ext_name(prog, m, n.func)
                if x is None:
                    continue
                rep.count('call_obligations')
                last = x.split('.')[-1]
                if x.startswith('numpy.random.') and last in RNG:
                    args = list(n.args) + [k.value for k in n.keywords if k.arg in ('seed', None) or k.arg]
                    if not args or not any(seeded(a, f.node) for a in args):
                        rep.viol('entropy', f'{m.name}:{q}:{last}', f'{last} in {q} is not seeded from the configuration', where)
                    if kept(n, f.node):
                        rep.viol('rng-state', f'{m.name}:{q}:{last}', f'{q} keeps a random number generator in an attribute: a second run continues its sequence', where)
                    continue
            if isinstance(n, (ast.Name, ast.Attribute)) and isinstance(n.ctx, ast.Load) and not isinstance(getattr(n, '_parent', None), ast.Attribute):
                x = ext_name(prog, m, n)
                if x and x.split('.')[-1] not in RNG and (any(x.startswith(p) if p.endswith('.') else x == p for p in BANNED_PREFIX) or x in ('numpy.random', 'random')) and x not in NOT_BANNED:
                    if q.endswith('__hash__') or q.endswith('__repr__') or isinstance(getattr(n, '_parent', None), ast.arg) or n is f.node.returns:
                        continue
                    if any(n is y for a in ast.walk(f.node.args) for y in ast.walk(a)):
                        continue
                    rep.viol('entropy', f'{m.name}:{q}:{x}', f'{q} uses {x}: its result is not a function of the configuration', where)
            it = None
            if isinstance(n, ast.For):
                it = n.iter
            elif isinstance(n, ast.comprehension):
                par = getattr(n, '_parent', None)
                gp = getattr(par, '_parent', None)
                if isinstance(par, ast.SetComp) or isinstance(gp, ast.Call) and dotted(gp.func) in ('sorted', 'any', 'all', 'set', 'frozenset', 'len', 'max', 'min'):
                    continue
                it = n.iter
            if it is not None:
                rep.count('loops')
                if is_setexpr(prog, m, it, defs, c):
                    rep.viol('unordered', f'{m.name}:{q}:{ast.unparse(it)[:40]}', f'{q} iterates over {ast.unparse(it)[:60]}, whose order is not determined', f'{m.rel}:{it.lineno} {q}')
            if isinstance(n, ast.Call) and n.args:
                d = dotted(n.func) or ''
                if d.split('.')[-1] in ('list', 'tuple', 'array', 'asarray', 'join', 'fromiter', 'stack', 'concatenate') and is_setexpr(prog, m, n.args[0], defs, c):
                    par = getattr(n, '_parent', None)
                    if isinstance(par, ast.Call) and (dotted(par.func) or '').split('.')[-1] in ('sorted', 'sort', 'unique', 'len'):
                        continue
                    rep.viol('unordered', f'{m.name}:{q}:{ast.unparse(n)[:40]}', f'{ast.unparse(n)[:60]} in {q} has no determined order', f'{m.rel}:{n.lineno} {q}')
    for m in prog.modules.values():
        if m.name.startswith(EXEMPT_MODULES):
            continue
        for n in ast.walk(m.tree):
            # generators created at import or class creation
            if isinstance(n, ast.Call):
                x = ext_name(prog, m, n.func)
                if x and x.startswith('numpy.random.') and x.split('.')[-1] in RNG:
                    k = n
                    while k is not None and not isinstance(k, (ast.FunctionDef, ast.Lambda)):
                        p = getattr(k, '_parent', None)
                        if isinstance(p, ast.arguments):
                            k = None
                            break
                        k = p
                    if k is None:
                        rep.viol('rng-state', f'{m.name}:module:{n.lineno and ""}{x}', f'{x} is created once for all calls', f'{m.rel}:{n.lineno}')
    rep.floor('functions', 400)
    rep.floor('call_obligations', 1000)


KEEPERS = {'setdefault', 'setattr', '__setattr__', '__setitem__', 'append', 'add', 'update', 'trait_set', 'add_trait'}
MEMO = {'lru_cache', 'cache', 'cached_property', 'property_depends_on'}


def kept(n, fn, depth=0):
    """does the value of the expression outlive the call: is it stored in an attribute, a container that is not local, or remembered by a decorator?"""
    local = {x.id for x in ast.walk(fn) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
    c, p = n, getattr(n, '_parent', None)
    while p is not None and p is not fn:
        if isinstance(p, ast.Call) and c is not p.func:
            name = p.func.attr if isinstance(p.func, ast.Attribute) else p.func.id if isinstance(p.func, ast.Name) else ''
            if name in KEEPERS:
                o = p.func.value if isinstance(p.func, ast.Attribute) else p.args[0]
                return not (isinstance(o, ast.Name) and o.id in local)
            if name not in ('vars', 'getattr', 'next', 'iter'):
                return False
        elif isinstance(p, ast.Attribute):
            return False
        elif isinstance(p, (ast.Assign, ast.NamedExpr)):
            for t in p.targets if isinstance(p, ast.Assign) else [p.target]:
                if isinstance(t, ast.Attribute) or isinstance(t, ast.Subscript) and not (isinstance(t.value, ast.Name) and t.value.id in local):
                    return True
                if isinstance(t, ast.Name) and depth < 3:
                    for x in ast.walk(fn):
                        if isinstance(x, ast.Name) and x.id == t.id and isinstance(x.ctx, ast.Load) and kept(x, fn, depth + 1):
                            return True
        elif isinstance(p, ast.Return):
            return (fn.name.startswith('_') and fn.name.endswith('_default') and len(fn.name) > 9) or any((dotted(d.func if isinstance(d, ast.Call) else d) or '').split('.')[-1] in MEMO for d in fn.decorator_list)
        c, p = p, getattr(p, '_parent', None)
    return False


class MustStore(Flow):
    """attributes of self definitely assigned since the start of the run"""

    MAX_ITER = 6

    class S:
        def __init__(self, s):
            self.s = s

        def copy(self):
            return MustStore.S(self.s)

        def join(self, o):
            return MustStore.S(self.s & o.s)

        def __eq__(self, o):
            return self.s == o.s

    def __init__(self, prog, C, names, report):
        self.prog, self.C, self.names, self.report = prog, C, names, report
        self.stack = []

    def call_method(self, g, st):
        if any(x.node is g.node for x in self.stack) or len(self.stack) > 8:
            return
        self.stack.append(g)
        saved = self._exc
        out = self.run(g.node, st.copy())
        self._exc = saved
        self.stack.pop()
        res = None
        for k in ('next', 'ret'):
            x = getattr(out, k)
            if x is not None:
                res = x if res is None else res.join(x)
        if res is not None and not g.generator:
            st.s = res.s
        elif g.generator:
            pass

    @property
    def me(self):
        f = self.stack[-1]
        return f.params[0] if f.params else None

    def eval(self, e, st):
        if e is None:
            return
        if isinstance(e, ast.Lambda):
            return
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and isinstance(e.func.value, ast.Call) and dotted(e.func.value.func) == 'super':
            for a in list(e.args) + [k.value for k in e.keywords]:
                self.eval(a, st)
            g = self.C.find_method(e.func.attr, after=self.stack[-1].cls)
            if g is not None:
                self.call_method(g, st)
            return
        if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and e.value.id == self.me:
            if isinstance(e.ctx, ast.Load):
                g = self.C.find_method(e.attr)
                t = self.C.find_trait(e.attr)
                if g is not None and t is None:
                    if 'property' in g.decorator_names() or isinstance(getattr(e, '_parent', None), ast.Call) and e._parent.func is e:
                        for a in list(e._parent.args) + [k.value for k in e._parent.keywords] if isinstance(getattr(e, '_parent', None), ast.Call) and e._parent.func is e else []:
                            self.eval(a, st)
                    self.call_method(g, st)
                elif t is not None and t.is_property:
                    g = self.C.find_method(f'_get_{e.attr}')
                    if g is not None:
                        self.call_method(g, st)
                elif e.attr in self.names and e.attr not in st.s:
                    self.report(e.attr, e, self.stack[-1])
            return
        for c in ast.iter_child_nodes(e):
            if isinstance(c, (ast.expr, ast.keyword, ast.comprehension, ast.Starred, ast.FormattedValue, ast.Slice)):
                self.eval(c, st)

    def store(self, t, st):
        if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == self.me:
            st.s = st.s | {t.attr}
        elif isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                self.store(x, st)
        elif isinstance(t, (ast.Subscript, ast.Attribute, ast.Starred)):
            self.eval(t.value, st)
            if isinstance(t, ast.Subscript):
                self.eval(t.slice, st)

    def simple(self, s, st):
        if isinstance(s, ast.Assign):
            self.eval(s.value, st)
            for t in s.targets:
                self.store(t, st)
        elif isinstance(s, ast.AugAssign):
            self.eval(s.value, st)
            t = s.target
            if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == self.me:
                if t.attr in self.names and t.attr not in st.s:
                    self.report(t.attr, t, self.stack[-1])
            self.store(t, st)
        elif isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.eval(s.value, st)
                self.store(s.target, st)
        elif isinstance(s, (ast.FunctionDef, ast.ClassDef)):
            return
        else:
            for c in ast.iter_child_nodes(s):
                if isinstance(c, ast.expr):
                    self.eval(c, st)

    def bind_for(self, node, st):
        self.store(node.target, st)

    def with_enter(self, item, st):
        self.eval(item.context_expr, st)
        if item.optional_vars is not None:
            self.store(item.optional_vars, st)


# (class, attribute) -> reason
STATE_OK = {
    ('SampleSplitter', '*'): 'the buffers are shared by all consumers of one run by design',
    ('AngleTracker', '*'): 'computed once per configuration: a change of the digest clears the flag',
    ('Config', '_cache_dir'): 'the default directory is fixed at its first use',
    ('WriteH5', 'file'): 'a generated file name is kept',
    ('HDF5Cache', '*'): 'registry of open files',
    ('SoundDeviceSamplesGenerator', '*'): 'live input',
}


def check_repeat(prog, rep):
    rep.rule('run-state', 'a generator of blocks (or of a signal) does not read state left behind by an earlier run: every attribute that a run writes is assigned by that run before it is read')
    from .p08 import closure, handler

    R = Reads(prog)
    for C in prog.all_classes():
        if not C.is_traits or C.abstract_methods():
            continue
        getters = [n for n in C.all_methods() if n.startswith('_get_')]
        for name in ['result', 'signal', 'usignal'] + getters:
            f = C.find_method(name)
            if f is None or 'abstractmethod' in f.decorator_names():
                continue
            seen = {}
            closure(R, prog, C, f, seen)
            # getters used by the run
            todo = list(seen.values())
            while todo:
                g = todo.pop()
                for n in walk_no_nested(g.node):
                    if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and g.params and n.value.id == g.params[0]:
                        h = C.find_method(f'_get_{n.attr}')
                        if h is not None and id(h.node) not in seen and h.decorator('cached_property') is None and h.decorator('property_depends_on') is None:
                            closure(R, prog, C, h, seen)
                            todo.append(h)
            names = set()
            for g in seen.values():
                for n in walk_no_nested(g.node):
                    if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and g.params and n.value.id == g.params[0]:
                        t = C.find_trait(n.attr)
                        if t is not None and t.is_property:
                            continue
                        if any((k.name, n.attr) in STATE_OK or (k.name, '*') in STATE_OK for k in C.mro()):
                            continue
                        names.add(n.attr)
                    # containers filled during the run
            rep.count('runs')
            rep.count('state_obligations', len(names))
            if not names:
                continue

            def report(attr, node, g, C=C, name=name):
                # a lazily computed value guarded by a flag that change handlers reset is derived data, not run state
                rep.viol('run-state', f'{C.name}.{name}:{attr}', f'{C.name}.{name} reads {attr} before assigning it (in {g.qual}): a second run starts from the state the first one left', f'{g.module.rel}:{node.lineno} {g.qual}')

            w = MustStore(prog, C, names, report)
            w.stack = [f]
            w.run(f.node, MustStore.S(frozenset()))
    rep.floor('runs', 40)


def check_shared(prog, rep):
    rep.rule('shared-state', 'no function writes to a mutable default argument, a module level container or a global variable: objects do not influence each other')
    MUT = {'append', 'appendleft', 'extend', 'insert', 'remove', 'pop', 'popitem', 'clear', 'sort', 'reverse', 'update', 'setdefault', 'add', 'discard', 'fill'}
    for f, c, q in all_funcs(prog):
        m = f.module
        if m.name.startswith(EXEMPT_MODULES):
            continue
        local = {n.id for n in walk_no_nested(f.node) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)} | set(f.params) | set(f.kwonly)
        shared = {p for p in f.params + f.kwonly if isinstance(f.default_of(p), (ast.List, ast.Dict, ast.Set, ast.ListComp)) or isinstance(f.default_of(p), ast.Call) and (dotted(f.default_of(p).func) or '').split('.')[-1] in ('list', 'dict', 'set', 'zeros', 'ones', 'empty', 'array')}
        rebound = {n.id for n in walk_no_nested(f.node) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
        glob = {k for k, v in m.globals.items() if isinstance(v, (ast.List, ast.Dict, ast.Set)) and k not in local}
        declared = set()
        for n in walk_no_nested(f.node):
            if isinstance(n, ast.Global):
                declared |= set(n.names)
        rep.count('shared_obligations', 1)

        def bad(name, n, what):
            rep.viol('shared-state', f'{m.name}:{q}:{name}', f'{q} {what} {name}, which all calls share', f'{m.rel}:{n.lineno} {q}')

        for n in walk_no_nested(f.node):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and n.id in declared:
                bad(n.id, n, 'assigns the global')
            if isinstance(n, ast.Subscript) and isinstance(n.ctx, (ast.Store, ast.Del)) and isinstance(n.value, ast.Name) and (n.value.id in glob or n.value.id in shared and n.value.id not in rebound):
                bad(n.value.id, n, 'writes to')
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUT and isinstance(n.func.value, ast.Name) and (n.func.value.id in glob or n.func.value.id in shared and n.func.value.id not in rebound):
                bad(n.func.value.id, n, f'calls {n.func.attr} on')
            if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name) and n.target.id in shared:
                bad(n.target.id, n, 'changes')
            # attribute of a class object
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and c is not None:
                d = dotted(n.value)
                if d and (d in ('self.__class__', 'type(self)') or prog.class_of_expr(n.value, m) is not None and d not in local):
                    bad(f'{d}.{n.attr}', n, 'assigns the class attribute')
    rep.floor('shared_obligations', 400)
