"""Coverage of configuration reads by ``digest`` / ``depends_on`` declarations."""

import ast

from .model import dotted
from .reads import Reads


def strip(d):
    d = d.strip()
    while d.endswith('[]'):
        d = d[:-2]
    return d


class Deps:
    def __init__(self, prog):
        self.prog = prog
        self.R = Reads(prog)
        self._trig = {}

    # ------------------------------------------------------------------ declarations
    def declared_deps(self, C, name):
        """(list of dependency strings, origin description) that invalidate / notify Property ``name`` of class C."""
        # traits semantics: the class that declares the Property fixes depends_on - its own metadata, else the
        # ``property_depends_on`` of the getter in the *same* class body.  A getter overridden further down the
        # hierarchy keeps the inherited listeners.
        t = C.find_trait(name)
        if t is None or not t.is_property:
            return []
        d = t.depends_on(self.prog)
        if d is not None:
            return d
        g = t.cls.methods.get(f'_get_{name}')
        if g is not None:
            dec = g.decorator('property_depends_on')
            if isinstance(dec, ast.Call) and (dec.args or dec.keywords):
                arg = dec.args[0] if dec.args else next((k.value for k in dec.keywords if k.arg == 'dependency'), None)
                return self.prog.str_list(arg, g.module) or []
        return []

    def is_cached(self, C, name):
        g = C.find_method(f'_get_{name}')
        return g is not None and bool({'cached_property', 'property_depends_on'} & set(g.decorator_names()))

    def cached_getters(self, C):
        for n, f in C.all_methods().items():
            if n.startswith('_get_') and {'cached_property', 'property_depends_on'} & set(f.decorator_names()):
                yield n[5:], f

    # ------------------------------------------------------------------ observers
    def observers(self, C):
        """{trait stored by a change handler: [(handler, [trigger names])]}"""
        if C in self._trig:
            return self._trig[C]
        out = {}
        for n, f in C.all_methods().items():
            trig = []
            for decn in ('on_trait_change', 'observe'):
                d = f.decorator(decn)
                if d is not None and isinstance(d, ast.Call) and d.args:
                    trig += self.prog.str_list(d.args[0], f.module) or []
            if n.startswith('_') and n.endswith('_changed') and n[1:-8] in C.all_traits():
                trig.append(n[1:-8])
            if not trig:
                continue
            for a in self.R.method_accesses(C, f):
                if a.kind == 'store' and len(a.path) == 1:
                    out.setdefault(a.path[0], []).append((f, trig))
        self._trig[C] = out
        return out

    def setter_stored(self, C):
        out = set()
        for n, f in C.all_methods().items():
            if n.startswith('_set_'):
                for a in self.R.method_accesses(C, f):
                    if a.kind == 'store' and len(a.path) == 1:
                        out.add(a.path[0])
        return out

    def has_digest(self, K):
        t = K.find_trait('digest')
        return t is not None

    def resolve(self, C, path):
        """Normalise delegates away: returns list of equivalent paths."""
        out = []
        cur = C
        pre = ()
        for i, n in enumerate(path):
            t = cur.find_trait(n) if cur else None
            if t is not None and t.kind == 'Delegate':
                tgt = t.arg(0).value if t.arg(0) is not None else None
                nm = t.arg(1).value if t.arg(1) is not None else n
                return self.resolve(C, pre + (tgt, nm) + tuple(path[i + 1:]))
            pre = pre + (n,)
            cur = self.R.typeof(C, pre)
        return pre

    def trait_at(self, C, path):
        k = self.R.typeof(C, path[:-1]) if len(path) > 1 else C
        return (k.find_trait(path[-1]) if k else None), k
