"""Rule: a cached Property is invalidated (and a dependent Property notified) by everything its getter reads."""

import ast

from .deps import Deps, strip
from .model import dotted, const_str
from .rule_digest import EXEMPT_NAMES


class Freshness:
    def __init__(self, prog, exempt=(), summaries=()):
        self.prog = prog
        self.D = Deps(prog)
        self.R = self.D.R
        self.exempt = dict(exempt)
        self.summaries = dict(summaries)
        self._memo = {}
        self._fires = {}

    # -- does a change of leaf `path` fire one of the notifications in `deps` (rooted at C)?
    def fires(self, C, deps, path, depth=0):
        path = tuple(path)
        for d in deps:
            dp = tuple(strip(d).split('.'))
            if path[: len(dp)] == dp and self.R.typeof(C, dp) is None and not self.inside_list(C, dp, path):
                return True          # the dependency itself (or a value inside it)
            if dp[: len(path)] == path:
                return True          # replacing an object on the way to the dependency fires it
            if dp[-1] == 'digest' and path[:-1] == dp[:-1] and self.opaque(C, path):
                return True
            if path[-1].endswith('()') and path[:-1] == dp[:-1] and dp[-1].endswith('digest'):
                # calling a method of an object whose (complete) digest is a dependency
                K = self.R.typeof(C, dp[:-1])
                if dp[-1] == 'digest':
                    return True
                if K is not None and all(self.prop_fires(K, dp[-1], leaf, depth + 1) for leaf in self.method_leaves(K, path[-1][:-2])):
                    return True
            for i in range(len(dp)):
                if path[:i] != dp[:i]:
                    break
                K = C if i == 0 else self.R.typeof(C, dp[:i])
                rest = path[i:]
                if K is not None and rest and self.prop_fires(K, dp[i], rest, depth + 1):
                    return True
            if len(dp) == 1:
                # a Delegate fires when its target fires
                r = self.D.resolve(C, dp)
                if r != dp and self.fires(C, ['.'.join(r)], path, depth + 1):
                    return True
            rp = self.D.resolve(C, dp)
            if rp != dp and self.fires(C, ['.'.join(rp)], path, depth + 1):
                return True
        return False

    def inside_list(self, C, dp, path):
        """`path` leads to a value of one of the objects in the list `dp`: only replacing the list announces a change of `dp`."""
        if len(path) == len(dp):
            return False
        t, _ = self.D.trait_at(C, dp)
        return t is not None and t.element_class(self.prog) is not None

    def prop_fires(self, K, name, rest, depth):
        """Property K.name announces a change of `rest` (path rooted at K)."""
        if depth > 12:
            return False
        key = (K, name, rest)
        if key in self._fires:
            return self._fires[key]
        self._fires[key] = False
        res = False
        t = K.find_trait(name)
        if t is not None:
            if t.is_property:
                deps = self.D.declared_deps(K, name)
                res = bool(deps) and self.fires(K, deps, rest, depth + 1)
            elif rest == (name,):
                res = True
            else:
                # trait maintained by a change handler (e.g. a digest string of a list of objects)
                r = tuple(x for x in rest if x != '*')
                for f, trig in self.D.observers(K).get(name, []):
                    for tr in trig:
                        p = tuple(x for x in strip(tr).replace(':', '.').split('.') if x != 'items')
                        lst = self.R.typeof(K, rest[: len(p)]) is None and rest[: len(p)] == p and len(p) == 1 and (
                            K.find_trait(p[0]).element_class(self.prog) is not None if K.find_trait(p[0]) else False)
                        if p[: len(r)] == r:
                            res = True                      # replacing something on the way
                        elif r[: len(p)] == p and not lst:
                            res = True                      # a plain value
                        elif p[-1] == 'digest' and r[: len(p) - 1] == p[:-1]:
                            res = True
        self._fires[key] = res
        return res

    def opaque(self, C, path):
        t, owner = self.D.trait_at(C, path)
        if t is None or not t.is_property:
            return False
        g = owner.find_method(f'_get_{path[-1]}')
        return g is None or 'abstractmethod' in g.decorator_names()

    def method_leaves(self, K, name):
        g = K.find_method(name)
        out = []
        for a in self.R.method_accesses(K, g) if g else []:
            if a.kind in ('read', 'objarg', 'call') and not a.guard:
                out += self.leaves(K, a.path, 0, a.kind == 'read')
        return out

    # -- leaves a getter depends on
    def leaves(self, C, path, depth=0, identity=False):
        """Expand a read path to configuration leaves: [(path, trail)]."""
        path = tuple(path)
        key = (C, path, identity)
        if key in self._memo:
            return self._memo[key]
        self._memo[key] = []
        out = self._leaves(C, path, depth, identity)
        self._memo[key] = out
        return out

    def _leaves(self, C, path, depth, identity=False):
        if depth > 12:
            return []
        rp = self.D.resolve(C, path)
        if rp != path:
            return self.leaves(C, rp, depth + 1, identity)
        name = path[-1]
        if name in EXEMPT_NAMES:
            return []
        if name.endswith('()'):
            K = self.R.typeof(C, path[:-1])
            g = K.find_method(name[:-2]) if K else None
            if g is None:
                return []
            if self.D.has_digest(K):
                return [path]
            out = []
            for a in self.R.method_accesses(K, g):
                if a.kind in ('read', 'objarg', 'call') and not a.guard:
                    out += self.leaves(C, path[:-1] + a.path, depth + 1, a.kind == 'read')
            return out
        t, owner = self.D.trait_at(C, path)
        if t is None or t.kind == 'Constant' or t.kind is None:
            return []
        for k in owner.mro():
            if (k.name, name) in self.exempt:
                return []
        if name.endswith('digest'):
            return [path]
        v = t.enum_values()
        if t.kind == 'Enum' and v is not None and len(v) == 1:
            return []
        if t.transient and t.kind == 'Instance':
            return []
        if t.is_property:
            g = owner.find_method(f'_get_{name}')
            if g is None or 'abstractmethod' in g.decorator_names():
                return [path]        # decided by the subclass at hand: stays opaque
            out = []
            for a in self.R.method_accesses(owner, g):
                if a.kind in ('read', 'objarg', 'call') and not a.guard:
                    out += self.leaves(C, path[:-1] + a.path, depth + 1, a.kind == 'read')
            return out
        K = self.R.typeof(C, path)
        if K is not None and self.D.has_digest(K) and not identity:
            return [path + ('digest',)]
        return [path]

    def uncovered(self, C, name):
        """Leaves read by the cached getter of C.name whose change does not invalidate it."""
        g = C.find_method(f'_get_{name}')
        deps = self.D.declared_deps(C, name)
        bad = {}
        n = 0
        for a in self.R.method_accesses(C, g):
            if a.kind not in ('read', 'objarg', 'call') or a.guard:
                continue
            if len(a.path) == 1 and self.own_state(C, a.path[0]):
                continue
            for leaf in self.leaves(C, a.path, 0, a.kind == 'read'):
                n += 1
                if len(leaf) == 1 and self.own_state(C, leaf[0]):
                    continue
                if not self.fires(C, deps, leaf):
                    # a leaf maintained by a handler of a covered leaf is refreshed together with it
                    if any((k.name, strip(d)) in self.summaries and (self.summaries[(k.name, strip(d))],) == leaf for k in C.mro() for d in self.flat(C, deps)):
                        continue
                    if len(leaf) == 1 and self.derived(C, deps, leaf[0]):
                        continue
                    bad.setdefault(leaf, a)
        return bad, n, deps

    def flat(self, C, deps, depth=0):
        out = list(deps)
        if depth < 6:
            for d in deps:
                if '.' not in d:
                    out += self.flat(C, self.D.declared_deps(C, strip(d)), depth + 1)
        return out

    def is_cached_name(self, C, name):
        return self.D.is_cached(C, name)

    def derived(self, C, deps, name):
        obs = self.D.observers(C).get(name)
        if not obs:
            return False
        return any(self.fires(C, deps, tuple(strip(x).split('.'))) for f, trig in obs for x in trig)

    def own_state(self, C, name):
        """private trait only written by the computing methods of the class itself"""
        if not name.startswith('_'):
            return False
        if name in self.D.setter_stored(C) or name in self.D.observers(C):
            return False
        t = C.find_trait(name)
        if t is None or t.is_property:
            return False
        stored = False
        for n, f in C.all_methods().items():
            for a in self.R.method_accesses(C, f):
                if a.kind == 'store' and a.path == (name,):
                    # a value that depends on what a caller asked for is no state of the object
                    if a.func is f and self.from_caller(f, name):
                        return False
                    stored = True
        return stored

    @staticmethod
    def from_caller(f, name):
        if f.name.startswith('_') or len(f.params) < 2:
            return False
        for n in ast.walk(f.node):
            if isinstance(n, ast.Assign) and any(isinstance(t, ast.Attribute) and t.attr == name for t in n.targets) and isinstance(n.value, ast.Name) and n.value.id in f.params[1:]:
                return True
        return False


def run(prog, exempt=(), summaries=()):
    F = Freshness(prog, exempt, summaries)
    findings, orphans, obligations, caches = {}, {}, 0, 0
    for C in prog.all_classes():
        if not C.is_traits:
            continue
        for name, f in F.D.cached_getters(C):
            t = C.find_trait(name)
            if 'abstractmethod' in f.decorator_names():
                continue
            if t is None or not t.is_property:
                if f.cls is not C:
                    continue
                orphans.setdefault((f.cls.name, f.name), f.where)
                continue
            caches += 1
            bad, n, deps = F.uncovered(C, name)
            obligations += n
            for leaf, a in bad.items():
                findings.setdefault((f.cls.name, name, '.'.join(leaf)), {}).setdefault(C.name, (a, deps))
    # Properties other objects subscribe to (they occur in a depends_on / observe / Delegate of another class)
    # must announce their own changes, in every class that can stand in for the declared one.
    wanted = {}

    def want(C, d, src):
        p = tuple(strip(d).split('.'))
        for i in range(1, len(p) + 1):
            K = C if i == 1 else F.R.typeof(C, p[: i - 1])
            if K is None:
                return
            exact = i == 1             # a listener on the object itself: judged for each class separately
            if (K, p[i - 1], exact) in wanted:
                continue
            wanted[(K, p[i - 1], exact)] = src
            for S in [K] if exact else prog.subclasses(K):
                t = S.find_trait(p[i - 1])
                if t is not None and t.kind == 'Delegate':
                    want(S, '.'.join(F.D.resolve(S, (p[i - 1],))), (S.name, p[i - 1], d))

    for C in prog.all_classes():
        if not C.is_traits:
            continue
        for n, t in C.all_traits().items():
            if t.is_property:
                for d in F.D.declared_deps(C, n):
                    want(C, d, (C.name, n, d))
        for n, hs in F.D.observers(C).items():
            for f, trig in hs:
                for tr in trig:
                    want(C, tr, (C.name, f.name, tr))
    announced = 0
    judged = set()
    for (K, name, exact), src in sorted(wanted.items(), key=lambda x: (x[0][0].name, x[0][1], x[0][2])):
        for S in [K] if exact else prog.subclasses(K):
            if (S, name) in judged:
                continue
            judged.add((S, name))
            t = S.find_trait(name)
            if t is None or not t.is_property or F.is_cached_name(S, name):
                continue
            g = S.find_method(f'_get_{name}')
            if g is None or 'abstractmethod' in g.decorator_names():
                continue
            announced += 1
            bad, n, deps = F.uncovered(S, name)
            obligations += n
            for leaf, a in bad.items():
                findings.setdefault((g.cls.name, name, '.'.join(leaf)), {}).setdefault(S.name, (a, deps, src))
    return F, findings, orphans, caches, obligations
