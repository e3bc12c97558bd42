"""P02: cached and derived values follow their inputs."""

import ast

from . import rule_fresh

SUMMARIES = {('TimeSamples', '_datachecksum'): 'data'}

EXEMPT = {
    ('PointSpreadFunction', 'freq'): 'psf is not a cached property',
}
SHAPE_ONLY = {
    ('LineGrid', 'size'): ({'loc', 'length', 'direction'}, 'only the shape of pos is used, which they do not affect'),
}


def check_fresh(prog, rep):
    rep.rule('cache-dependencies', 'the getter of every cached Property reads nothing whose change does not invalidate the cached value; '
             'a Property that other objects subscribe to announces every change of what its getter reads')
    F, findings, orphans, caches, obligations = rule_fresh.run(prog, {}, SUMMARIES)
    rep.count('cached_properties', caches)
    rep.count('leaf_obligations', obligations)
    rep.floor('cached_properties', 120)
    rep.floor('leaf_obligations', 600)
    for (cls, g), where in sorted(orphans.items()):
        rep.viol('cache-orphan', f'{cls}.{g}', f'{g} is decorated as the getter of a cached Property, but {cls} has no such Property', where)
    for (cls, name, leaf), hit in sorted(findings.items()):
        so = SHAPE_ONLY.get((cls, name))
        if so and leaf.split('.')[0] in so[0]:
            continue
        c = sorted(hit)[0]
        a = hit[c][0]
        deps = hit[c][1]
        rep.viol('cache-dependencies', f'{cls}.{name}:{leaf}',
                 f'{name} of {c} reads {leaf} ({a.func.qual}:{a.line}), but its dependencies {deps} do not announce a change of it: '
                 'the value stays stale', f'{a.func.module.rel}:{a.line} {a.func.qual}')


CONTAINERS = ('List', 'CList', 'Dict', 'Set', 'CSet')


def check_containers(prog, rep, F):
    """traits: depends_on=['x'] alone listens to assignments of x only; 'x[]', a plain string or further entries also to changes inside"""
    rep.rule('container-items', 'a cached value that is computed from a list or dictionary is renewed when an entry of it changes')
    for C in prog.all_classes():
        if not C.is_traits:
            continue
        for name, g in F.D.cached_getters(C):
            t = C.find_trait(name)
            if t is None or not t.is_property:
                continue
            deps = F.D.declared_deps(C, name)
            node = t.kw('depends_on')
            if node is None:
                own = t.cls.methods.get(f'_get_{name}')
                d = own.decorator('property_depends_on') if own is not None else None
                node = (d.args[0] if d.args else None) if isinstance(d, ast.Call) else None
            if node is None or isinstance(node, ast.Constant) or len(deps) != 1 or '.' in deps[0] or '[' in deps[0]:
                continue
            rep.count('single_dependencies')
            for d in deps:
                x = C.find_trait(d)
                if x is None or x.kind not in CONTAINERS:
                    continue
                rep.viol('container-items', f'{t.cls.name}.{name}:{d}', f'{name} of {C.name} depends on the {x.kind} {d}, but only its replacement is noticed: after '
                         f'a change of one of its entries {name} stays stale (the dependency has to be "{d}[]")', g.where)


def check_lazy_state(prog, rep):
    """state that a cached getter sets up is not used before that getter has run"""
    from .model import walk_no_nested
    from .p08 import closure, handler
    from .p09 import MustStore
    from .reads import Reads

    rep.rule('state-before-getter', 'attributes that only the getter of a cached property sets are read by public methods only after that property has been read')
    R = Reads(prog)
    for C in prog.all_classes():
        if not C.is_traits:
            continue
        # attribute -> properties whose getter stores it
        lazy, other = {}, set()
        for n, f in C.all_methods().items():
            prop = n[5:] if n.startswith('_get_') and (f.decorator('cached_property') is not None or f.decorator('property_depends_on') is not None) else None
            for x in walk_no_nested(f.node):
                if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and isinstance(x.value, ast.Name) and f.params and x.value.id == f.params[0]:
                    t = C.find_trait(x.attr)
                    if t is None or t.is_property:
                        continue
                    if prop:
                        lazy.setdefault(x.attr, set()).add(prop)
                    else:
                        other.add(x.attr)
        names = {a for a in lazy if a not in other}
        if not names:
            continue

        class W(MustStore):
            def eval(self, e, st):
                if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and e.value.id == self.me and isinstance(e.ctx, ast.Load):
                    for a in lazy:
                        if e.attr in lazy[a]:
                            st.s = st.s | {a}
                super().eval(e, st)

        for n, f in C.all_methods().items():
            if n.startswith('_') or handler(f) or 'abstractmethod' in f.decorator_names():
                continue
            # methods of base classes that do not know the attribute describe what is there
            known = {a for a in names if f.cls and f.cls.find_trait(a) is not None}
            if not known:
                continue
            rep.count('lazy_state_obligations')

            def report(attr, node, g, f=f, n=n):
                rep.viol('state-before-getter', f'{f.qual}:{attr}', f'{f.qual} reads {attr} (in {g.qual}) although {" / ".join(sorted(lazy[attr]))} has not been read: the value is missing or belongs to a former configuration', f'{g.module.rel}:{node.lineno} {g.qual}')

            w = W(prog, C, known, report)
            w.stack = [f]
            w.run(f.node, MustStore.S(frozenset()))


def check_handlers(prog, rep):
    """state that is kept by handlers of changes"""
    from .deps import strip
    from .model import dotted, walk_no_nested

    rep.rule('handler-covers', 'state kept by a handler of changes is renewed whenever something changes that the handler takes it from')
    rep.rule('flag-reset', 'a flag that says that something has been calculated is reset by every change of what the calculation reads')
    F = rule_fresh.Freshness(prog, {}, {})
    seen = set()
    for C in prog.all_classes():
        if not C.is_traits:
            continue
        obs = F.D.observers(C)
        for name, hs in obs.items():
            for f, trig in hs:
                lists = set()
                for n in walk_no_nested(f.node):
                    e = None
                    if isinstance(n, ast.Call) and (dotted(n.func) or '').split('.')[-1] == 'ldigest' and n.args:
                        e = n.args[0]
                    elif isinstance(n, ast.comprehension) and any(isinstance(x, ast.Attribute) and x.attr == 'digest' for x in ast.walk(n._parent)):
                        e = n.iter
                    if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and f.params and e.value.id == f.params[0]:
                        lists.add(e.attr)
                if not lists:
                    continue
                alltrig = [t.replace(':', '.').replace('_items', '.items').replace('[]', '.items') for g, ts in hs if ast.dump(ast.Module(g.node.body, [])) == ast.dump(ast.Module(f.node.body, [])) or g is f for t in ts]
                for x in sorted(lists):
                    rep.count('handlers')
                    if not any(t.split('.')[0] == x and t.split('.')[-1] == 'digest' for t in alltrig) and (f.qual, name) not in seen:
                        seen.add((f.qual, name))
                        rep.viol('handler-covers', f'{f.qual}:{name}', f'{name} of {C.name} is made from the digests of {x}, but is only renewed when {sorted(alltrig)} change', f.where)
        # flags
        for f in C.all_methods().values():
            if not f.params:
                continue
            for n in walk_no_nested(f.node):
                if not (isinstance(n, ast.Assign) and isinstance(n.value, ast.Constant) and n.value.value is True and len(n.targets) == 1):
                    continue
                t = n.targets[0]
                if not (isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == f.params[0] and t.attr.startswith('_')):
                    continue
                flag = t.attr
                tests = [g for g in C.all_methods().values() if g.name.startswith('_get_') and g.params and any(
                    isinstance(x, ast.If) and any(isinstance(y, ast.Attribute) and y.attr == flag for y in ast.walk(x.test)) for x in walk_no_nested(g.node))]
                if not tests:
                    continue
                rep.count('flags')
                trig = [x for h, ts in obs.get(flag, []) for x in ts]
                if (f.qual, flag) in seen:
                    continue
                miss = set()
                for a in F.R.method_accesses(C, f):
                    if a.kind not in ('read', 'objarg', 'call') or a.guard or len(a.path) == 1 and F.own_state(C, a.path[0]):
                        continue
                    for leaf in F.leaves(C, a.path, 0, a.kind == 'read'):
                        if len(leaf) == 1 and F.own_state(C, leaf[0]):
                            continue
                        if not F.fires(C, trig, leaf):
                            miss.add('.'.join(leaf))
                if miss:
                    seen.add((f.qual, flag))
                    rep.viol('flag-reset', f'{f.qual}:{flag}', f'{flag} of {C.name} says that {f.qual} has been done, but is not reset when {sorted(miss)} change', f.where)
    rep.floor('handlers', 2)
    check_containers(prog, rep, F)
    check_registered(prog, rep, F)


MAGIC_BEGIN = ('__', '_get_', '_set_', '_validate_')
MAGIC_END = ('_default', '_changed', '_fired', '_items')


def hands_out(g):
    """the attribute of the object that a method does nothing but return"""
    from .model import walk_no_nested

    rets = [x for x in walk_no_nested(g.node) if isinstance(x, ast.Return)]
    if len(rets) != 1 or rets[0]._parent is not g.node or not g.params:
        return None
    vals = {}
    for x in g.node.body:
        if isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name):
            vals[x.targets[0].id] = x.value if x.targets[0].id not in vals else None
        elif not isinstance(x, (ast.Expr, ast.Pass, ast.Return)):
            return None
    v = rets[0].value
    for _ in range(4):
        if isinstance(v, ast.Name) and vals.get(v.id) is not None:
            v = vals[v.id]
    if isinstance(v, ast.Attribute) and isinstance(v.value, ast.Name) and v.value.id == g.params[0]:
        return v.attr
    return None


def check_registered(prog, rep, F):
    from .deps import strip
    from .model import walk_no_nested
    from .p08 import handler

    rep.rule('handler-registered', 'a private method that renews the state of an object is called by something or listens to changes')
    rep.rule('handler-renews', 'whether a handler of changes renews the state does not depend on the state it renews')
    named = {}
    for m in prog.modules.values():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Attribute):
                named[n.attr] = 1
            elif isinstance(n, ast.Name):
                named[n.id] = 1
            elif isinstance(n, ast.Constant) and isinstance(n.value, str):
                for w in n.value.replace(',', ' ').split():
                    named[w] = 1
    for C in prog.all_classes():
        if not C.is_traits:
            continue
        obs = F.D.observers(C)
        for n, f in C.methods.items():
            if not f.params:
                continue
            me = f.params[0]

            def stored(g, depth=0, C=C, nodes=None):
                out = set()
                for x in walk_no_nested(g.node) if nodes is None else nodes:
                    if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and g.params and x.value.id == g.params[0]:
                        if isinstance(x.ctx, ast.Store):
                            out.add(x.attr)
                        elif isinstance(getattr(x, '_parent', None), ast.Call) and x._parent.func is x and depth < 3 and C.find_method(x.attr):
                            out |= stored(C.find_method(x.attr), depth + 1)
                return out
            if n.startswith('_') and not n.startswith(MAGIC_BEGIN) and not n.endswith(MAGIC_END):
                st = {a for a in stored(f) if C.find_trait(a) is not None}
                if st:
                    rep.count('state_methods')
                    if not named.get(n) and not f.decorator_names() and not any(handler(K.methods[n]) for K in C.mro() if n in K.methods):
                        rep.viol('handler-registered', f.qual, f'{f.qual} sets {sorted(st)}, but nothing calls it and it listens to no change', f.where)
            if not n.startswith('_') and len(f.params) == 1 and not f.node.args.vararg and not named.get(n) and not f.decorator_names() and not f.generator and not any(
                    handler(K.methods[n]) for K in C.mro() if n in K.methods) and f.node.body and all(
                    isinstance(x, ast.Assign) and all(isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == me and C.find_trait(t.attr) is not None and not C.find_trait(t.attr).transient
                                                      for t in x.targets) for x in f.node.body if not (isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant))):
                rep.count('state_methods')
                rep.viol('handler-registered', f.qual, f'{f.qual} only sets {sorted(stored(f))} from other settings, but nothing calls it and it listens to no change', f.where)
            if handler(f):
                ts = [strip(t).replace(':', '.') for hs in obs.values() for h, tt in hs if h is f for t in tt]
                if ts:
                    for a in F.R.method_accesses(C, f):
                        if a.kind not in ('read', 'objarg', 'call') or a.guard or len(a.path) < 2 or a.path[0] in stored(f):
                            continue
                        for leaf in F.leaves(C, a.path, 0, a.kind == 'read'):
                            rep.count('handler_reads')
                            g = C.find_method(f'_get_{leaf[0]}')
                            if g is not None and hands_out(g):
                                leaf = (hands_out(g),) + tuple(leaf[1:])
                            if not F.fires(C, ts, leaf):
                                rep.viol('handler-covers', f'{f.qual}:{".".join(leaf)}', f'{f.qual} takes {".".join(leaf)} into the state it renews, but is only called when {sorted(ts)} change', f'{a.func.module.rel}:{a.line} {f.qual}')
                trig = {strip(t).replace(':', '.').split('.')[0] for hs in obs.values() for h, ts in hs if h is f for t in ts}
                own = stored(f) - trig
                for x in walk_no_nested(f.node):
                    if isinstance(x, (ast.If, ast.IfExp)):
                        rd = {y.attr for y in ast.walk(x.test) if isinstance(y, ast.Attribute) and isinstance(y.value, ast.Name) and y.value.id == me and isinstance(y.ctx, ast.Load)}
                        if isinstance(x, ast.If) and not stored(f, nodes=[z for b in x.body + x.orelse for z in ast.walk(b)]) and not any(isinstance(z, ast.Return) for b in x.body + x.orelse for z in ast.walk(b)):
                            continue
                        if rd and rd <= own and not any(a in stored(g) for a in rd for g in C.all_methods().values() if not g.name.startswith('_') or g.name.startswith('_set_')):
                            rep.viol('handler-renews', f'{f.qual}:{".".join(sorted(rd))}', f'{f.qual} renews {sorted(own)} after a change of {sorted(trig)} only depending on the former {sorted(rd)}', f'{f.module.rel}:{x.lineno} {f.qual}')
    rep.floor('state_methods', 5)


# ------------------------------------------------------------------ setters
def check_setters(prog, rep):
    """what is assigned to a Property is what reading it goes back to"""
    from .model import walk_no_nested

    rep.rule('setter-stores', 'every part of a value that is assigned to a Property is stored by its setter, on every path that is not an error')
    rep.rule('setter-read-back', 'what the setter of a Property stores is what its getter reads in the state (flags) the setter leaves')
    done = set()
    for C in prog.all_classes():
        if not C.is_traits:
            continue
        for name, f in C.all_methods().items():
            if not name.startswith('_set_') or len(f.params) < 2:
                continue
            t = C.find_trait(name[5:])
            if t is None or not t.is_property:
                continue
            g = C.find_method(f'_get_{name[5:]}')
            key = (f.qual, g.qual if g else None)
            if key in done:
                continue
            done.add(key)
            rep.count('setters')
            me, val = f.params[0], f.params[1]
            tainted, loads = {val}, {}
            nodes = list(walk_no_nested(f.node))
            for _ in range(4):
                for n in nodes:
                    if isinstance(n, (ast.Assign, ast.AnnAssign)) and n.value is not None and names_of(n.value) & tainted:
                        for x in ast.walk(n.targets[0] if isinstance(n, ast.Assign) else n.target):
                            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                                tainted.add(x.id)
            for n in nodes:
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
                    loads[n.id] = loads.get(n.id, 0) + 1
            for v in sorted(tainted):
                if not loads.get(v) and not v.startswith('_'):
                    rep.viol('setter-stores', f'{f.qual}:{v}', f'{v}, a part of what is assigned to {name[5:]}, is not used: the assignment has no effect', f.where)
            fields, consts = set(), {}
            for n in nodes:
                if isinstance(n, ast.Assign):
                    for x in n.targets:
                        if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == me:
                            if names_of(n.value) & tainted:
                                fields.add(x.attr)
                            elif isinstance(n.value, ast.Constant) and isinstance(n.value.value, bool):
                                consts[x.attr] = n.value.value if x.attr not in consts else None
            if fields and completes(f.node.body, me, tainted):
                rep.viol('setter-stores', f'{f.qual}:path', f'a path through the setter of {name[5:]} neither stores the value nor raises an error', f.where)
            if g is None or not fields or g.cls is not f.cls:
                continue
            flags = {x.attr for h in C.all_methods().values() if h.name.startswith('_set_') for n in walk_no_nested(h.node) if isinstance(n, ast.Assign)
                     and isinstance(n.value, ast.Constant) and isinstance(n.value.value, bool) for x in n.targets
                     if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == h.params[0]}
            known = {k: v for k, v in consts.items() if v is not None}
            lost = set()
            for more in [{}] + [{k: v} for k in sorted(flags - set(known)) for v in (False, True)]:
                got = set()
                reads_under(C, g, {**known, **more}, got, set())
                lost |= fields - got
            for a in sorted(lost):
                rep.viol('setter-read-back', f'{f.qual}:{a}', f'what is assigned to {name[5:]} of {C.name} is stored in {a}, which its getter does not read in the state the setter leaves '
                         f'({consts or "no flag set"})', f.where)
    rep.floor('setters', 8)


def names_of(e):
    return {n.id for n in ast.walk(e) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load)}


def completes(body, me, tainted):
    """can the statements end normally without a store of the assigned value?"""
    def run(body):
        # -> set of 'fall', 'out' of paths that have not stored
        res = {'fall'}
        for s in body:
            if isinstance(s, ast.Raise):
                return res - {'fall'}
            if isinstance(s, ast.Return):
                return res - {'fall'} | {'out'}
            if isinstance(s, ast.If):
                a, b = run(s.body), run(s.orelse)
                res = (res - {'fall'}) | a | b
            elif isinstance(s, ast.With):
                res = (res - {'fall'}) | run(s.body)
            elif isinstance(s, ast.Try):
                a = run(s.body + s.orelse)
                for h in s.handlers:
                    a = a | run(h.body)
                res = (res - {'fall'}) | a
                if s.finalbody:
                    res = (res - {'fall'}) | (run(s.finalbody) if 'fall' in res else set())
            elif isinstance(s, (ast.For, ast.While)):
                return set()
            else:
                for n in ast.walk(s):
                    if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id == me:
                        return res - {'fall'}
                    if isinstance(n, ast.Call) and any(names_of(a) & tainted for a in list(n.args) + [k.value for k in n.keywords]) and isinstance(n.func, ast.Attribute) \
                            and isinstance(n.func.value, ast.Name) and n.func.value.id == me:
                        return res - {'fall'}
            if 'fall' not in res:
                return res
        return res
    return bool(run(body))


def reads_under(C, g, consts, got, seen):
    if g is None or g.qual in seen or not g.params:
        return
    seen.add(g.qual)
    me = g.params[0]

    def truth(t):
        if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            v = truth(t.operand)
            return None if v is None else not v
        if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == me:
            return consts.get(t.attr)
        if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.comparators[0], ast.Constant) and isinstance(t.comparators[0].value, bool):
            v = truth(t.left)
            if v is None:
                return None
            same = v == t.comparators[0].value
            return same if isinstance(t.ops[0], (ast.Is, ast.Eq)) else not same
        if isinstance(t, ast.BoolOp):
            vs = [truth(v) for v in t.values]
            if isinstance(t.op, ast.And):
                return False if False in vs else True if all(v is True for v in vs) else None
            return True if True in vs else False if all(v is False for v in vs) else None
        return None

    def expr(e):
        todo = [e]
        while todo:
            n = todo.pop()
            if isinstance(n, ast.IfExp):
                v = truth(n.test)
                todo.append(n.test)
                todo += [n.body] if v is not False else []
                todo += [n.orelse] if v is not True else []
                continue
            if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == me:
                got.add(n.attr)
                reads_under(C, C.find_method(f'_get_{n.attr}'), consts, got, seen)
                if isinstance(getattr(n, '_parent', None), ast.Call) and n._parent.func is n:
                    reads_under(C, C.find_method(n.attr), consts, got, seen)
            todo += list(ast.iter_child_nodes(n))

    def run(body):
        for s in body:
            if isinstance(s, ast.If):
                v = truth(s.test)
                expr(s.test)
                ended = []
                if v is not False:
                    ended.append(run(s.body))
                if v is not True:
                    ended.append(run(s.orelse))
                if all(ended):
                    return True
                continue
            if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                continue
            for fld in s._fields:
                x = getattr(s, fld)
                for y in x if isinstance(x, list) else [x]:
                    if isinstance(y, ast.expr):
                        expr(y)
                    elif isinstance(y, ast.ExceptHandler):
                        run(y.body)
                    elif isinstance(y, (ast.withitem,)):
                        expr(y.context_expr)
            ended = False
            for b in ('body', 'orelse', 'finalbody'):
                if isinstance(getattr(s, b, None), list) and run(getattr(s, b)) and not isinstance(s, (ast.For, ast.While)):
                    ended = True
            if isinstance(s, (ast.Return, ast.Raise)) or ended and not isinstance(s, ast.Try):
                return True
        return False

    run(g.node.body)
