"""Rule: every configurable trait an output reads is covered by the object's digest."""

import ast

from .deps import Deps, strip
from .model import dotted

# traits that do not select *what* is computed; one reason each
EXEMPT_NAMES = {
    'workers': 'degree of parallelism of scipy.fft only',
    'cached': 'switches the file cache on/off, not the result',
    'calcmode': 'order in which PSF columns are stored, not their value',
    'show': 'verbosity of the solver output',
    'h5f': 'handle of the cache file, chosen from the digest itself',
    'config': 'global caching/IO configuration, not part of the computation',
    'metadata': 'free text attached to files, not read by computations',
}


class DigestCoverage:
    def __init__(self, prog, summaries=(), exempt=(), state=()):
        self.prog = prog
        self.D = Deps(prog)
        self.R = self.D.R
        self.summaries = dict(summaries)      # (class, dep name) -> trait it summarises
        self.exempt = dict(exempt)            # (class, trait) -> reason
        self.state = dict(state)
        self._stores = None
        self.fail = []
        self.obligations = 0
        self._memo = {}
        self.demands = set()          # (class, digest trait, path): owed by that class and every subclass

    # -- is `path` (rooted at an instance of C) pinned down by `deps`?
    def covered(self, C, deps, path, trail=(), depth=0):
        """[] when covered, else list of uncovered leaves [(path, trail)]."""
        path = tuple(path)
        key = (C, tuple(deps), path)
        if key in self._memo:
            return self._memo[key]
        self._memo[key] = []         # in progress: a cycle adds nothing new
        res = self._covered(C, deps, path, trail, depth)
        uniq, seen = [], set()
        for p, tr in res:
            if p not in seen:
                seen.add(p)
                uniq.append((p, tr))
        self._memo[key] = uniq
        return uniq

    def _covered(self, C, deps, path, trail, depth):
        name = path[-1]
        if name in EXEMPT_NAMES:
            if name == 'h5f':
                return self._loaded_file(C, deps, path, trail, depth)
            return []
        dl = [tuple(strip(d).split('.')) for d in deps]
        if path in dl:
            return []
        rp = self.D.resolve(C, path)
        if rp in dl:
            return []
        if rp != path:
            return self.covered(C, deps, rp, trail + ('.'.join(path) + ' delegates to ' + '.'.join(rp),), depth + 1)
        if path[0] == 'self':
            return []
        call = name.endswith('()')
        # value summaries
        for d in dl:
            if len(d) == 1:
                for k in C.mro():
                    if self.summaries.get((k.name, d[0])) == path[0] and len(path) == 1:
                        return []
        # prefix that is a plain (non-object) value
        for d in dl:
            if len(d) < len(path) and path[: len(d)] == d and self.R.typeof(C, d) is None:
                return []
        # through the digest of a sub-object
        for d in dl:
            if len(d) >= 2 and d[-1].endswith('digest') and path[: len(d) - 1] == d[:-1]:
                K = self.R.typeof(C, d[:-1])
                rest = path[len(d) - 1:]
                if K is None or not rest or (call and d[-1] == 'digest'):
                    return []
                if rest[0] == d[-1]:
                    return []
                self.demands.add((K, d[-1], rest))
                return []
        # '*' lists of objects: covered by an observer-maintained digest trait
        if '*' in path or self._is_objlist(C, path):
            head = path[: path.index('*')] if '*' in path else path
            for d in dl:
                if len(d) == 1 and self._observer_digest(C, d[0], head):
                    return []
                if d == head and '*' not in path:
                    return []
        t, owner = self.D.trait_at(C, path)
        if call:
            K = self.R.typeof(C, path[:-1])
            if K is not None:
                miss = []
                g = K.find_method(name[:-2])
                for a in self.R.method_accesses(K, g) if g else []:
                    if a.kind in ('read', 'objarg', 'call') and not a.guard:
                        miss += self.covered(C, deps, path[:-1] + a.path, trail + (f"{'.'.join(path)} reads {'.'.join(a.path)}",), depth + 1)
                if g and (len(path) == 1 or not self.D.has_digest(K)):
                    return miss
                if g and self.D.has_digest(K):
                    # polymorphic object without its digest among the dependencies
                    return [(path[:-1] + ('digest',), trail)]
            return []
        if t is None:
            return []
        for k in (owner.mro() if owner else []):
            if (k.name, name) in self.exempt:
                return []
        if t.kind == 'Constant' or t.kind is None:
            return []
        if t.cls.name == 'SpectraGenerator':
            return []     # placeholder of the contract that the class at hand does not fill
        if t.is_property:
            g = owner.find_method(f'_get_{name}')
            if g is None:
                if t.arg(0) is not None:      # Property(_x): wraps the default of another trait only
                    return []
                return []
            miss = []
            for a in self.R.method_accesses(owner, g):
                if a.kind in ('read', 'objarg', 'call') and not a.guard:
                    miss += self.covered(C, deps, path[:-1] + a.path, trail + (f"{'.'.join(path)} reads {'.'.join(a.path)} in {a.func.qual}:{a.line}",), depth + 1)
            return miss
        K = self.R.typeof(C, path)
        if K is not None:
            # an object used as a whole
            if self.D.has_digest(K):
                return [(path + ('digest',), trail)]
            # objects without digest: all their traits
            return []
        if t.transient and t.kind in ('Instance',):
            return []
        if owner is not None and self.is_state(owner, name):
            return []
        if owner is not None and self._constant_table(owner, name):
            return []
        obs = self.D.observers(owner).get(name) if owner and not self._contract(owner, name) else None
        if obs:
            ok = False
            for f, trig in obs:
                for tr in trig:
                    trp = path[:-1] + tuple(strip(tr).split('.'))
                    if not self.covered(C, deps, trp, trail, depth + 1):
                        ok = True
            if ok:
                return []
        if self._single_valued(t):
            return []
        return [(path, trail)]

    CONTRACT = ('sample_freq', 'num_channels', 'num_samples', 'num_freqs', 'freqs', 'block_size')

    def _contract(self, owner, name):
        # the attributes of the Generator contract can be assigned directly by the user as well
        return name in ('sample_freq',) and owner.find_trait(name) is not None

    def _constant_table(self, owner, name):
        """private trait that nothing in the package ever assigns: a constant table"""
        if not name.startswith('_'):
            return False
        if self._stores is None:
            self._stores = {n.attr for m in self.prog.modules.values() for n in ast.walk(m.tree)
                            if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del))}
        return name not in self._stores

    def _loaded_file(self, C, deps, path, trail, depth):
        """a file handle opened by a change handler stands for what that handler reads"""
        t, owner = self.D.trait_at(C, path)
        obs = self.D.observers(owner).get(path[-1]) if owner else None
        miss = []
        for f, trig in obs or []:
            for a in self.R.method_accesses(owner, f):
                if a.kind in ('read', 'objarg') and not a.guard and a.path[0] not in ('h5f', 'metadata'):
                    if a.path[0] in {x for x, hs in self.D.observers(owner).items() if any(h[0] is f for h in hs)}:
                        continue
                    miss += self.covered(C, deps, path[:-1] + a.path, trail + (f"{'.'.join(path)} is opened from {'.'.join(a.path)}",), depth + 1)
        return miss

    def _single_valued(self, t):
        v = t.enum_values()
        return v is not None and t.kind == 'Enum' and len(v) == 1

    def _is_objlist(self, C, path):
        t, _ = self.D.trait_at(C, path)
        return bool(t is not None and t.kind in ('List', 'CList') and t.element_class(self.prog) is not None)

    def _observer_digest(self, C, dname, head):
        for f, trig in self.D.observers(C).get(dname, []):
            for tr in trig:
                p = tuple(x for x in strip(tr).replace(':', '.').split('.') if x != 'items')
                if p == head + ('digest',):
                    return True
        return False

    def is_state(self, C, name):
        """Traits the object itself writes while computing and that only its own computation writes."""
        key = (C, name)
        if key in self.state:
            return self.state[key]
        stored_setter = name in self.D.setter_stored(C)
        stored_obs = name in self.D.observers(C)
        stored_comp = False
        for n, f in C.all_methods().items():
            if n.startswith('_set_') or n == '__init__' or f.decorator('on_trait_change') is not None or f.decorator('observe') is not None:
                continue
            for a in self.R.method_accesses(C, f):
                if a.kind == 'store' and a.path == (name,):
                    stored_comp = True
        res = stored_comp and not stored_setter and name.startswith('_')
        if stored_comp and not stored_setter and not stored_obs and not name.startswith('_'):
            res = False
        self.state[key] = res
        return res

OUTPUT_EXCLUDED_PREFIX = ('export', 'import', 'load', 'save', 'set_', 'register', 'remove', 'create', 'validate', 'delegate', 'add_', 'get_initialized', 'increase', 'device_')
PRIVATE_OUTPUTS = {'_calc', '_r', '_psf_call', '_delay_and_sum', '_f'}


# results that are never cached and only normalise or describe; one reason each
EXEMPT_OUTPUTS = {
    'sig_loss_norm': 'factor derived on request, already applied to the map it belongs to',
}


def outputs(C, D, is_generator):
    """(label, [access paths]) of everything a user obtains from an instance of C."""
    for n, t in C.all_traits().items():
        if t.is_property and not n.startswith('_') and n not in ('digest', 'inv_digest', 'basename'):
            if D.R.typeof(C, (n,)) is not None:
                continue              # hands out an object that carries its own digest
            yield f'property {n}', [((n,), t.where)]
    if is_generator:
        for n in ('sample_freq', 'num_channels', 'num_samples', 'num_freqs'):
            t = C.find_trait(n)
            if t is not None and not t.is_property:
                yield f'metadata {n}', [((n,), t.where)]
    for n, f in C.all_methods().items():
        if n.startswith('_') and n not in PRIVATE_OUTPUTS:
            continue
        if n in EXEMPT_OUTPUTS or any(n.startswith(p) for p in OUTPUT_EXCLUDED_PREFIX):
            continue
        if f.decorator('on_trait_change') is not None or f.decorator('observe') is not None:
            continue
        acc = [(a.path, f'{a.func.where} (line {a.line})') for a in D.R.method_accesses(C, f) if a.kind in ('read', 'objarg', 'call') and not a.guard]
        yield f'method {n}', acc


def run(prog, exempt=(), summaries=()):
    dc = DigestCoverage(prog, summaries, exempt)
    G = prog.cls('Generator')
    findings, classes, obligations = {}, [], 0

    def report(C, dname, p, label, where, trail):
        owner = C.find_trait(dname).cls
        findings.setdefault((owner.name, dname, '.'.join(p)), {}).setdefault(C.name, (label, where, trail))

    for C in prog.all_classes():
        if not C.is_traits or C.find_trait('digest') is None:
            continue
        deps = dc.D.declared_deps(C, 'digest')
        g = C.find_method('_get_digest')
        if not deps or g is None or 'abstractmethod' in g.decorator_names():
            continue
        classes.append(C.name)
        for label, accs in outputs(C, dc.D, C.issub(G)):
            for path, where in accs:
                if path[-1] in ('digest', 'inv_digest'):
                    continue
                obligations += 1
                for p, trail in dc.covered(C, deps, path):
                    report(C, 'digest', p, label, where, trail)
    done = set()
    while dc.demands - done:
        for d in sorted(dc.demands - done, key=lambda x: (x[0].name, x[1], x[2])):
            done.add(d)
            K, dname, rest = d
            for S in prog.subclasses(K):
                deps = dc.D.declared_deps(S, dname)
                if not deps:
                    continue
                obligations += 1
                for p, trail in dc.covered(S, deps, rest):
                    report(S, dname, p, f"{'.'.join(rest)} is used by other objects", '', trail)
    return dc, findings, classes, obligations
