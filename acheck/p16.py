"""P16: every declared value of an option is implemented, and only declared values are tested for."""

import ast

from .model import dotted, walk_no_nested
from .p24 import all_funcs, trait_values
from .reads import Reads

# option values that are documented to be synonyms: (attribute, frozenset)
SYNONYMS = {
    ('_h5library', frozenset({'pytables', 'tables'})): 'two names of the same package',
}


def funcs(prog):
    if not hasattr(prog, '_p16_funcs'):
        prog._p16_funcs = [f for f, _, _ in all_funcs(prog)]
    return prog._p16_funcs


def forwarded(prog, C, name):
    """name of the trait a plain forwarding Property returns"""
    t = C.find_trait(name)
    if t is not None and t.is_property:
        g = C.find_method(f'_get_{name}')
        if g is not None and g.params:
            rets = [n for n in walk_no_nested(g.node) if isinstance(n, ast.Return) and n.value is not None]
            if len(rets) == 1 and isinstance(rets[0].value, ast.Attribute) and isinstance(rets[0].value.value, ast.Name) and rets[0].value.value.id == g.params[0]:
                return rets[0].value.attr
    return name


def union_values(prog, K, name):
    vals = []
    for S in prog.subclasses(K):
        t = S.find_trait(forwarded(prog, S, name))
        if t is None:
            continue
        v = t.enum_values()
        if v is None:
            return None
        vals += [x for x in v if x not in vals]
    return vals or None


class Options:
    """values of option expressions in a function"""

    def __init__(self, prog):
        self.prog = prog
        self.R = Reads(prog)
        self.config = prog.cls('Config')
        # attribute name -> classes that declare it as an option with string values
        self.by_name = {}
        self.other = set()
        for C in prog.all_classes():
            for n, t in C.attrs.items():
                v = t.enum_values()
                if v and any(isinstance(x, str) for x in v):
                    self.by_name.setdefault(n, set()).add(C)
                elif v is None or not all(x is None for x in v):
                    self.other.add(n)

    def of(self, f, e, cls=None):
        """(owner label, values) of expression e in function f"""
        d = dotted(e)
        if d is None:
            return None
        parts = d.split('.')
        if len(parts) < 2:
            return None
        C = cls or f.cls
        if parts[:-1] == ['config'] or parts[-2] == 'config' and len(parts) == 2:
            v = union_values(self.prog, self.config, parts[-1]) if self.config else None
            return ('Config', v) if v else None
        if C is not None and f.params and parts[0] == f.params[0]:
            K = C if len(parts) == 2 else self.R.typeof(C, tuple(parts[1:-1]))
            if K is not None:
                v = union_values(self.prog, K, parts[-1])
                if v is None:
                    tv = trait_values(self.prog, self.R, C, f.params[0])(d)
                    v = list(tv) if tv else None
                return (K.name, v) if v else None
        owners = self.by_name.get(parts[-1])
        if owners and parts[-1] not in self.other:
            vals = []
            for K in owners:
                vals += [x for x in union_values(self.prog, K, parts[-1]) or [] if x not in vals]
            return ('/'.join(sorted(K.name for K in owners)), vals)
        return None


def aliases(f):
    """locals that hold an attribute all the time"""
    cnt, val = {}, {}
    for n in walk_no_nested(f.node):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            cnt[n.id] = cnt.get(n.id, 0) + 1
        if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and isinstance(n.value, ast.Attribute):
            val[n.targets[0].id] = n.value
        if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Tuple) and isinstance(n.value, ast.Tuple) and len(n.value.elts) == len(n.targets[0].elts):
            for a, b in zip(n.targets[0].elts, n.value.elts):
                if isinstance(a, ast.Name) and isinstance(b, ast.Attribute):
                    val[a.id] = b
    return {k: v for k, v in val.items() if cnt.get(k) == 1 and k not in f.params}


# literals tested for that are no declared value
LITERAL_OK = {
    ('steer_type', 'custom'): 'name of the case of user supplied steering vectors in the compiled functions; guards against subclasses',
}


def literals(node):
    if isinstance(node, ast.Constant):
        return [node.value] if node.value is not None else []
    if isinstance(node, (ast.Tuple, ast.List, ast.Set)) and all(isinstance(x, ast.Constant) for x in node.elts):
        return [x.value for x in node.elts]
    return None


def same(a, b):
    return a == b and (isinstance(a, bool) == isinstance(b, bool))


def member(x, vals):
    return any(same(x, v) for v in vals)


def check_literals(prog, rep):
    rep.rule('option-literal', 'a literal that is compared with, assigned to or passed for an option is one of its declared values')
    O = Options(prog)
    for f in funcs(prog):
        al = aliases(f)
        for n in walk_no_nested(f.node):
            pairs = []
            if isinstance(n, ast.Compare) and len(n.ops) == 1:
                a, b = n.left, n.comparators[0]
                if isinstance(n.ops[0], (ast.Eq, ast.NotEq, ast.Is, ast.IsNot)):
                    pairs = [(a, b), (b, a)]
                elif isinstance(n.ops[0], (ast.In, ast.NotIn)):
                    pairs = [(a, b)]
            elif isinstance(n, ast.Match):
                pairs = [(n.subject, p.value) for c in n.cases for p in ast.walk(c.pattern) if isinstance(p, ast.MatchValue)]
            elif isinstance(n, ast.Assign):
                pairs = [(t, n.value) for t in n.targets if isinstance(t, ast.Attribute)]
            for e, lit in pairs:
                if isinstance(e, ast.Name) and e.id in al:
                    e = al[e.id]
                ls = literals(lit)
                if not ls or not isinstance(e, ast.Attribute):
                    continue
                ov = O.of(f, e)
                if ov is None or not ov[1]:
                    continue
                rep.count('literals')
                for x in ls:
                    if not member(x, ov[1]) and (e.attr, x) not in LITERAL_OK:
                        rep.viol('option-literal', f'{f.qual}:{ast.unparse(e)}={x!r}',
                                 f'{f.qual} uses {x!r} for the option {ast.unparse(e)}, whose declared values are {ov[1]}', f'{f.module.rel}:{n.lineno} {f.qual}')
            if isinstance(n, ast.Call):
                K = prog.class_of_expr(n.func, f.module)
                if K is None or not K.is_traits:
                    continue
                for kw in n.keywords:
                    if kw.arg and isinstance(kw.value, ast.Constant):
                        t = K.find_trait(kw.arg)
                        v = t.enum_values() if t is not None else None
                        if v:
                            rep.count('literals')
                            if not member(kw.value.value, v):
                                rep.viol('option-literal', f'{f.qual}:{K.name}.{kw.arg}={kw.value.value!r}',
                                         f'{f.qual} passes {kw.value.value!r} for the option {kw.arg} of {K.name}, whose declared values are {v}', f'{f.module.rel}:{n.lineno} {f.qual}')
    rep.floor('literals', 60)


# ---------------------------------------------------------------- what a function does for one value of an option

UNKNOWN = object()


def clone(n):
    if isinstance(n, ast.AST):
        m = type(n)(**{k: clone(v) for k, v in ast.iter_fields(n)})
        return ast.copy_location(m, n)
    if isinstance(n, list):
        return [clone(x) for x in n]
    return n


class Fold(ast.NodeTransformer):
    """code of a function for a given value of self.<opt>"""

    def __init__(self, me, opt, value, al, tables):
        self.me, self.opt, self.value, self.al, self.tables = me, opt, value, al, tables
        self.hit = False

    def is_opt(self, e):
        if isinstance(e, ast.Name) and e.id in self.al:
            e = self.al[e.id]
        return isinstance(e, ast.Attribute) and e.attr == self.opt and isinstance(e.value, ast.Name) and e.value.id == self.me

    def truth(self, t):
        """True / False / UNKNOWN for the current value"""
        if isinstance(t, ast.Constant):
            return bool(t.value)
        if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            v = self.truth(t.operand)
            return v if v is UNKNOWN else not v
        if isinstance(t, ast.BoolOp):
            vs = [self.truth(x) for x in t.values]
            if isinstance(t.op, ast.And):
                return False if False in vs else True if all(v is True for v in vs) else UNKNOWN
            return True if True in vs else False if all(v is False for v in vs) else UNKNOWN
        if self.is_opt(t):
            self.hit = True
            return bool(self.value)
        if isinstance(t, ast.Compare) and len(t.ops) == 1:
            a, b, op = t.left, t.comparators[0], t.ops[0]
            if self.is_opt(b) and isinstance(op, (ast.Eq, ast.NotEq)):
                a, b = b, a
            if self.is_opt(a):
                ls = literals(b) if not (isinstance(b, ast.Constant) and b.value is None) else [None]
                if ls is not None:
                    self.hit = True
                    if isinstance(op, (ast.Eq, ast.Is)):
                        return len(ls) == 1 and same(self.value, ls[0])
                    if isinstance(op, (ast.NotEq, ast.IsNot)):
                        return not (len(ls) == 1 and same(self.value, ls[0]))
                    if isinstance(b, ast.Constant):
                        return UNKNOWN
                    if isinstance(op, ast.In):
                        return member(self.value, ls)
                    if isinstance(op, ast.NotIn):
                        return not member(self.value, ls)
        return UNKNOWN

    def body(self, stmts):
        out = []
        for s in stmts:
            r = self.visit(s)
            if r is None:
                continue
            out += r if isinstance(r, list) else [r]
            if out and isinstance(out[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break)):
                break
        return out

    def generic_visit(self, node):
        for name, v in ast.iter_fields(node):
            if isinstance(v, list) and v and isinstance(v[0], ast.stmt):
                setattr(node, name, self.body(v))
            elif isinstance(v, list):
                setattr(node, name, [self.visit(x) if isinstance(x, ast.AST) else x for x in v])
            elif isinstance(v, ast.AST):
                setattr(node, name, self.visit(v))
        return node

    def visit_If(self, n):
        v = self.truth(n.test)
        if v is True:
            return self.body(n.body)
        if v is False:
            return self.body(n.orelse)
        n.test = self.simplify(n.test)
        n.body = self.body(n.body)
        n.orelse = self.body(n.orelse)
        return n

    def visit_While(self, n):
        v = self.truth(n.test)
        if v is False:
            return None
        return self.generic_visit(n)

    def simplify(self, t):
        if isinstance(t, ast.BoolOp):
            keep = []
            for x in t.values:
                v = self.truth(x)
                if v is UNKNOWN:
                    keep.append(self.simplify(x))
            return keep[0] if len(keep) == 1 else ast.BoolOp(op=t.op, values=keep)
        return self.visit(t)

    def visit_BoolOp(self, n):
        v = self.truth(n)
        if v is not UNKNOWN:
            return ast.Constant(value=v)
        return self.simplify(n)

    def visit_Compare(self, n):
        v = self.truth(n)
        if v is not UNKNOWN:
            return ast.Constant(value=v)
        return self.generic_visit(n)

    def visit_IfExp(self, n):
        v = self.truth(n.test)
        if v is True:
            return self.visit(n.body)
        if v is False:
            return self.visit(n.orelse)
        return self.generic_visit(n)

    def visit_Match(self, n):
        if not self.is_opt(n.subject):
            return self.generic_visit(n)
        self.hit = True
        for c in n.cases:
            pats = c.pattern.patterns if isinstance(c.pattern, ast.MatchOr) else [c.pattern]
            for p in pats:
                if isinstance(p, ast.MatchAs) and p.pattern is None and c.guard is None:
                    return self.body(c.body)
                if isinstance(p, ast.MatchValue) and isinstance(p.value, ast.Constant) and same(p.value.value, self.value):
                    if c.guard is None:
                        return self.body(c.body)
        return None

    def visit_Subscript(self, n):
        if isinstance(n.ctx, ast.Load) and self.is_opt(n.slice):
            d = self.tables(n.value)
            if d is not None:
                self.hit = True
                for k, v in zip(d.keys, d.values):
                    if isinstance(k, ast.Constant) and same(k.value, self.value):
                        return self.visit(clone(v))
                return ast.Name(id='<missing>', ctx=ast.Load())
        return self.generic_visit(n)

    def visit_JoinedStr(self, n):
        # names and messages do not make a difference
        return ast.Constant(value='<text>')

    def visit_Attribute(self, n):
        if isinstance(n.ctx, ast.Load) and n.attr in (self.opt, f'{self.opt}_') and isinstance(n.value, ast.Name) and n.value.id == self.me:
            self.hit = True
            return ast.Constant(value=f'<{self.opt}={self.value!r}>')
        return self.generic_visit(n)

    def visit_Assign(self, n):
        # local copies of the option itself
        if len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and n.targets[0].id in self.al and self.is_opt(n.value):
            return None
        return self.generic_visit(n)

    def visit_Name(self, n):
        if isinstance(n.ctx, ast.Load) and n.id in self.al and self.is_opt(n):
            self.hit = True
            return ast.Constant(value=f'<{self.opt}={self.value!r}>')
        return n


def trait_dict(t):
    if isinstance(t.value, ast.Dict):
        return t.value
    if t.kind == 'Dict' and isinstance(t.arg(0), ast.Dict):
        return t.arg(0)
    return None


def table_of(prog, f):
    """dict literal an expression denotes: local (assigned once), class attribute or module constant"""
    loc = {}
    cnt = {}
    for n in walk_no_nested(f.node):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            cnt[n.id] = cnt.get(n.id, 0) + 1
        if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and isinstance(n.value, ast.Dict):
            loc[n.targets[0].id] = n.value

    def find(e):
        if isinstance(e, ast.Dict):
            d = e
        elif isinstance(e, ast.Name):
            d = loc.get(e.id) if cnt.get(e.id) == 1 else None
            if d is None and e.id not in cnt:
                r = prog.resolve_global(f.module, e.id)
                v = r[1][1] if r and r[0] == 'global' else None
                d = v if isinstance(v, ast.Dict) else None
        elif isinstance(e, ast.Attribute):
            d = None
            own = isinstance(e.value, ast.Name) and f.params and e.value.id == f.params[0] and f.cls is not None
            owners = f.cls.mro() if own else prog.all_classes()
            hits = [v for K in owners if e.attr in K.attrs for v in [trait_dict(K.attrs[e.attr])]]
            if hits and (own or len(hits) == 1):
                d = hits[0]
        else:
            d = None
        if d is None or any(k is None for k in d.keys):
            return None
        return d
    return find


def check_values(prog, rep):
    rep.rule('option-effect', 'no two declared values of an option select the same code: each of them is implemented')
    rep.rule('option-table', 'a table that is indexed with an option has an entry for every declared value')
    O = Options(prog)
    R = O.R
    for C in prog.all_classes():
        if not C.is_traits:
            continue
        methods = [g for K in C.mro() for g in K.methods.values()]
        for name, t in C.all_traits().items():
            vals = t.enum_values()
            if not vals or len(vals) < 2:
                continue
            use = [name]
            # forwarding property in the same class
            use += [n for n, q in C.all_traits().items() if q.is_property and n != name and forwarded(prog, C, n) == name]
            codes = {i: [] for i in range(len(vals))}
            used = False
            for f in methods:
                if f.name.startswith('_get_') and f.name.endswith('digest') or not f.params:
                    continue
                if not any(isinstance(x, ast.Attribute) and x.attr.rstrip('_') in [u.rstrip('_') for u in use] for x in ast.walk(f.node)):
                    continue
                fwd = f.name.startswith('_get_') and f.name[5:] in use[1:]
                al = {k: v for k, v in aliases(f).items()}
                tabs = table_of(prog, f)
                for u in ([] if fwd else use):
                    for i, v in enumerate(vals):
                        fo = Fold(f.params[0], u, v, al, tabs)
                        node = clone(f.node)
                        node.body = fo.body(node.body)
                        used = used or fo.hit
                        codes[i].append(ast.dump(node))
                for u in ([] if fwd else use):
                    for n, none in falls_through(f, lambda v: Fold(f.params[0], u, v, al, tabs), vals):
                        none = [v for v in none if (f.name, u, v) not in LEFT_OUT]
                        if not none:
                            continue
                        rep.viol('option-effect', f'{name}:{f.qual}:{none}', f'{f.qual} does nothing for {name} in {none} of {C.name}', f'{f.module.rel}:{n.lineno} {f.qual}')
                for n in walk_no_nested(f.node):
                    if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Load):
                        k = n.slice
                        if isinstance(k, ast.Name) and k.id in al:
                            k = al[k.id]
                        if isinstance(k, ast.Attribute) and k.attr == name and isinstance(k.value, ast.Name) and k.value.id == f.params[0]:
                            d = tabs(n.value)
                            if d is not None:
                                rep.count('tables')
                                keys = [x.value for x in d.keys if isinstance(x, ast.Constant)]
                                miss = [v for v in vals if not member(v, keys)]
                                if miss:
                                    rep.viol('option-table', f'{C.name}.{name}:{f.qual}', f'{f.qual} looks up {name} in a table without entries for {miss}', f'{f.module.rel}:{n.lineno} {f.qual}')
            # used by others through a typed reference
            foreign = False
            for f in funcs(prog):
                if f.cls is not None and f.cls in C.mro():
                    continue
                for x in ast.walk(f.node):
                    if isinstance(x, ast.Attribute) and x.attr in use and isinstance(x.ctx, ast.Load):
                        foreign = True
            if not used:
                continue
            rep.count('options')
            rep.count('option_values', len(vals))
            if foreign and name not in ('precision',):
                # decided where it is used
                pass
            for i in range(len(vals)):
                for j in range(i):
                    if codes[i] == codes[j] and not foreign_differs(prog, O, C, use, vals[i], vals[j]):
                        if any(n == name and {vals[i], vals[j]} <= s for n, s in SYNONYMS):
                            continue
                        rep.viol('option-effect', f'{t.cls.name}.{name}:{vals[j]!r}={vals[i]!r}',
                                 f'the values {vals[j]!r} and {vals[i]!r} of the option {name} of {C.name} select exactly the same code', t.where)
                        continue
                    for b, v in together(C, methods, use):
                        rep.count('option_pairs')
                        if narrowed(prog, C, methods, use, vals[i], b, v) == narrowed(prog, C, methods, use, vals[j], b, v) and not foreign_differs(prog, O, C, use, vals[i], vals[j]):
                            rep.viol('option-effect', f'{t.cls.name}.{name}:{vals[j]!r}={vals[i]!r}:{b}',
                                     f'when {b} is {v}, the values {vals[j]!r} and {vals[i]!r} of the option {name} of {C.name} select exactly the same code', t.where)
    rep.floor('options', 25)


def together(C, methods, use):
    """[(switch, value)]: the boolean parameters that are tested in a method that tests the option"""
    out = set()
    for f in methods:
        if not f.params or f.name.startswith('_get_') and f.name.endswith('digest'):
            continue
        attrs = {x.attr.rstrip('_') for x in ast.walk(f.node) if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == f.params[0]}
        if not attrs & {u.rstrip('_') for u in use}:
            continue
        for n in walk_no_nested(f.node):
            if isinstance(n, (ast.If, ast.IfExp, ast.While)):
                for x in ast.walk(n.test):
                    if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == f.params[0]:
                        t = C.find_trait(x.attr)
                        if t is not None and t.kind in ('Bool', 'CBool') and not x.attr.startswith('_'):
                            out |= {(x.attr, True), (x.attr, False)}
    return sorted(out)


def narrowed(prog, C, methods, use, value, b, bv):
    out = []
    for f in methods:
        if not f.params or f.name.startswith('_get_') and f.name.endswith('digest') or f.name.startswith('_get_') and f.name[5:] in use[1:]:
            continue
        if not any(isinstance(x, ast.Attribute) and x.attr.rstrip('_') in [u.rstrip('_') for u in use] for x in ast.walk(f.node)):
            continue
        node = clone(f.node)
        al, tabs = aliases(f), table_of(prog, f)
        for u, v in [(u, value) for u in use] + [(b, bv)]:
            node.body = Fold(f.params[0], u, v, al, tabs).body(node.body)
        out.append(ast.dump(node))
    return out


def foreign_differs(prog, O, C, use, a, b):
    """some code outside the class treats the two values differently"""
    for f in funcs(prog):
        if f.cls is not None and f.cls in C.mro():
            continue
        for n in walk_no_nested(f.node):
            if isinstance(n, ast.Attribute) and n.attr in use and isinstance(n.ctx, ast.Load) and isinstance(n.value, (ast.Attribute, ast.Name)):
                base = dotted(n.value)
                if base is None:
                    return True
                if isinstance(n.value, ast.Name) and f.params and n.value.id == f.params[0] and f.cls is not None:
                    continue
                if f.cls is not None and base.startswith(f.params[0] + '.') if f.params else False:
                    K = O.R.typeof(f.cls, tuple(base.split('.')[1:]))
                    if K is not None and not (C.issub(K) or K.issub(C)):
                        continue
                d = base + '.' + n.attr

                class F2(Fold):
                    def is_opt(self, e, d=d):
                        if isinstance(e, ast.Name) and e.id in self.al:
                            e = self.al[e.id]
                        return dotted(e) == d

                    def visit_Attribute(self, m, d=d):
                        if dotted(m) == d:
                            return ast.Constant(value=f'<{self.value!r}>')
                        return self.generic_visit(m)
                al, tabs = aliases(f), table_of(prog, f)
                out = []
                for v in (a, b):
                    fo = F2(None, None, v, al, tabs)
                    node = clone(f.node)
                    node.body = fo.body(node.body)
                    out.append(ast.dump(node))
                if out[0] != out[1]:
                    return True
    return False


def branches(n):
    """enclosing (If, branch) pairs of a statement"""
    out = []
    while getattr(n, '_parent', None) is not None and not isinstance(n, (ast.FunctionDef, ast.Lambda)):
        p = n._parent
        if isinstance(p, ast.If):
            b = 'body' if any(n is x for x in p.body) else 'orelse' if any(n is x for x in p.orelse) else None
            if b:
                out.append((p, b))
        n = p
    return out


# values left to subclasses
LEFT_OUT = {
    ('_virtNewCoord_func', 'array_dimension', "'custom'"): 'coordinates of a custom array are supplied by a subclass',
}


def falls_through(f, fold, vals):
    """(chain, values) for if/elif chains without else that test an option at least twice and skip a value"""
    out = []
    for n in walk_no_nested(f.node):
        if not isinstance(n, ast.If):
            continue
        par = getattr(n, '_parent', None)
        if isinstance(par, ast.If) and par.orelse == [n]:
            continue
        tests, k = [], n
        while True:
            tests.append(k.test)
            if len(k.orelse) == 1 and isinstance(k.orelse[0], ast.If):
                k = k.orelse[0]
            else:
                break
        if k.orelse or len(tests) < 2:
            continue
        rows = {}
        for v in vals:
            rows[repr(v)] = [fold(v).truth(t) for t in tests]
        decided = all(any(r[i] is not UNKNOWN for r in rows.values()) for i in range(len(tests)))
        none = [v for v, r in rows.items() if all(x is False for x in r)]
        # values that do not come here, or are dealt with elsewhere in the function
        up = branches(n)
        for v in vals:
            if repr(v) in none and any(fold(v).truth(i.test) is (b != 'body') for i, b in up):
                none.remove(repr(v))
        inside = {id(x) for x in ast.walk(n)}
        for t in walk_no_nested(f.node):
            if isinstance(t, (ast.If, ast.IfExp)) and id(t) not in inside and not any(t is i for i, b in up):
                if any(i is j and b != c for i, b in up for j, c in branches(t)):
                    continue
                yes = [v for v in vals if fold(v).truth(t.test) is not False]
                if len(yes) < len(vals):
                    none = [x for x in none if x not in {repr(v) for v in yes}]
        if decided and none and len(none) < len(vals):
            out.append((n, none))
    return out


def check_tables(prog, rep):
    rep.rule('option-table', 'a table keyed by the values of an option has one entry for each of them, no two of which are the same; '
             'a table keyed by combinations has all combinations')
    rep.rule('kernel-code', 'every code that stands for an option value selects its own branch of a compiled kernel')
    O = Options(prog)
    opts = {}
    for n, Cs in O.by_name.items():
        for C in Cs:
            v = C.attrs[n].enum_values()
            vs = frozenset(x for x in v if isinstance(x, str))
            if len(vs) >= 2:
                opts.setdefault(vs, set()).add(f'{C.name}.{n}')
    for m in prog.modules.values():
        for d in ast.walk(m.tree):
            if not isinstance(d, ast.Dict) or len(d.keys) < 2 or any(k is None for k in d.keys):
                continue
            par = getattr(d, '_parent', None)
            if isinstance(par, ast.Call) and (dotted(par.func) or '').split('.')[-1] in ('Map', 'Trait', 'DictEditor'):
                continue
            where = f'{m.rel}:{d.lineno}'
            if all(isinstance(k, ast.Tuple) and all(isinstance(x, ast.Constant) for x in k.elts) for k in d.keys):
                keys = [tuple(x.value for x in k.elts) for k in d.keys]
                if len({len(k) for k in keys}) == 1 and len(keys[0]) > 1:
                    rep.count('tables')
                    full = [()]
                    for i in range(len(keys[0])):
                        full = [a + (b,) for a in full for b in sorted({k[i] for k in keys}, key=repr)]
                    miss = [k for k in full if k not in keys]
                    dup = duplicates(d)
                    if miss or dup or len(set(keys)) != len(keys):
                        rep.viol('option-table', f'{m.rel}:tuple keys:{sorted(map(repr, miss))}{dup}', f'table without entries for {miss}, or the same entry for {dup or keys}', where)
                continue
            if not all(isinstance(k, ast.Constant) and isinstance(k.value, str) for k in d.keys):
                continue
            keys = frozenset(k.value for k in d.keys)
            best = None
            for vs, names in opts.items():
                if keys == vs or keys > vs and len(vs) > 2:
                    best = (vs, names, None)
                    break
                if len(keys & vs) >= 2 and (keys < vs or len(keys) == len(vs) and len(keys & vs) == len(vs) - 1):
                    if best is None or len(vs - keys) < len(best[0] - keys):
                        best = (vs, names, sorted(vs - keys))
            if best is None or isinstance(par, ast.Call) and (dotted(par.func) or '').split('.')[-1] == 'dict':
                continue
            rep.count('tables')
            vs, names, miss = best
            if miss:
                rep.viol('option-table', f'{m.rel}:{sorted(names)[0]}:{miss}', f'table keyed by values of {sorted(names)} has no entry for {miss}', where)
            dup = duplicates(d)
            if dup:
                rep.viol('option-table', f'{m.rel}:{sorted(names)[0]}:{dup}', f'table keyed by values of {sorted(names)} has the same entry for {dup}', where)
    rep.floor('tables', 3)
    # codes passed to compiled kernels
    codes = {}
    for f in funcs(prog):
        tabs = table_of(prog, f)
        disp = {}
        for n in walk_no_nested(f.node):
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and isinstance(n.value, ast.Subscript):
                d = tabs(n.value.value)
                if d is not None:
                    disp[n.targets[0].id] = [v for v in d.values if isinstance(v, ast.Name)]
        for n in walk_no_nested(f.node):
            if not isinstance(n, ast.Call) or not isinstance(n.func, ast.Name):
                continue
            tgts = disp.get(n.func.id) or [n.func]
            for i, a in enumerate(n.args):
                if isinstance(a, ast.Subscript):
                    d = tabs(a.value)
                    if d is not None and d.values and all(isinstance(v, ast.Constant) for v in d.values):
                        for t in tgts:
                            g = prog.resolve_global(f.module, t.id)
                            g = g[1] if g and g[0] == 'func' else None
                            if g is not None and i < len(g.params):
                                codes.setdefault((g, g.params[i]), {}).update({k.value: v.value for k, v in zip(d.keys, d.values)})
    for (g, p), kv in sorted(codes.items(), key=lambda x: x[0][0].qual):
        rep.count('kernel_codes', len(kv))

        class F3(Fold):
            def is_opt(self, e):
                return isinstance(e, ast.Name) and (e.id == p)

            def visit_Name(self, n):
                return n

            def visit_Assign(self, n):
                # conditions kept in locals
                if len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                    v = self.truth(n.value)
                    if v is not UNKNOWN and not isinstance(n.value, ast.Constant):
                        self.known[n.targets[0].id] = v
                        return None
                return self.generic_visit(n)

            def truth(self, t):
                if isinstance(t, ast.Name) and t.id in self.known:
                    return self.known[t.id]
                return super().truth(t)
        def mk(v, F3=F3):
            fo = F3(None, None, v, {}, lambda e: None)
            fo.known = {}
            return fo
        for n, none in falls_through(g, mk, list(kv.values())):
            rep.viol('kernel-code', f'{g.qual}:{p}:{none}', f'{g.qual} does nothing for {p} in {none}, which stands for {[k for k in kv if repr(kv[k]) in none]}', f'{g.module.rel}:{n.lineno} {g.qual}')
        out = {}
        for k, v in kv.items():
            fo = F3(None, None, v, {}, lambda e: None)
            fo.known = {}
            node = clone(g.node)
            node.body = fo.body(node.body)
            node.decorator_list = []
            for k2, prev in out.items():
                if prev == ast.dump(node):
                    rep.viol('kernel-code', f'{g.qual}:{p}:{k2!r}={k!r}', f'{g.qual} does the same for {k2!r} and {k!r} ({p}={kv[k2]!r} and {v!r})', g.where)
            out[k] = ast.dump(node)
            # every other code falls through all branches and computes nothing
            if not fo.hit:
                rep.viol('kernel-code', f'{g.qual}:{p}:unused', f'{g.qual} does not use {p}', g.where)
    rep.floor('kernel_codes', 3)


def chains(fn):
    """if/elif chains (also: ifs that each end the function) as lists of (test, body)"""
    for n in walk_no_nested(fn):
        if not isinstance(n, ast.If):
            continue
        par = getattr(n, '_parent', None)
        if isinstance(par, ast.If) and par.orelse == [n]:
            continue
        out, k = [], n
        while True:
            out.append((k, k.test, k.body))
            if len(k.orelse) == 1 and isinstance(k.orelse[0], ast.If):
                k = k.orelse[0]
            else:
                if k.orelse:
                    out.append((k, None, k.orelse))
                break
        if len(out) > 1:
            yield out


def effective(fn, body, others):
    """the branch without values that nothing uses (a name that only the other branches, which set it themselves, read)"""
    inside = {id(n) for s in body for n in ast.walk(s)}
    out = []
    for s in body:
        if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
            name = s.targets[0].id
            own = {id(n) for n in ast.walk(s)}
            used = False
            for n in walk_no_nested(fn):
                if isinstance(n, ast.Name) and n.id == name and isinstance(n.ctx, ast.Load) and id(n) not in own:
                    if id(n) in inside:
                        used = True
                        break
                    sib = [b for b in others if any(n is m for x in b for m in ast.walk(x))]
                    if not sib or not any(isinstance(x, ast.Assign) and any(isinstance(y, ast.Name) and y.id == name for y in x.targets) for x in sib[0]):
                        used = True
                        break
            if not used:
                continue
        out.append(s)
    return out


def plain(fn, body):
    """the branch with values put in where they are used, if they are used only once and only in it"""
    body = [clone(s) for s in body]
    for _ in range(8):
        for i, s in enumerate(body):
            if not (isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name)):
                continue
            name = s.targets[0].id
            here = [n for x in body for n in ast.walk(x) if isinstance(n, ast.Name) and n.id == name]
            uses = [n for n in here if isinstance(n.ctx, ast.Load)]
            everywhere = [n for n in walk_no_nested(fn) if isinstance(n, ast.Name) and n.id == name and isinstance(n.ctx, ast.Load)]
            if len(here) != 2 or len(uses) != 1 or len(everywhere) > 1 or i + 1 >= len(body) or not any(uses[0] is n for n in ast.walk(body[i + 1])) or isinstance(body[i + 1], (ast.For, ast.While)):
                continue
            put = Put(uses[0], s.value)
            body[i + 1] = put.visit(body[i + 1])
            del body[i]
            break
        else:
            break
    return body


class Put(ast.NodeTransformer):
    def __init__(self, old, new):
        self.old, self.new = old, new

    def visit_Name(self, n):
        return self.new if n is self.old else n


def tested(t, is_opt):
    """(option text, values) of a test that compares an option with literals"""
    if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], (ast.Eq, ast.In, ast.Is)):
        ls = literals(t.comparators[0])
        if ls and all(isinstance(x, str) for x in ls) and is_opt(t.left):
            return ast.unparse(t.left), ls
    return None


def check_branches(prog, rep):
    rep.rule('option-branch', 'the branches that deal with different values of an option are not the same')
    rep.rule('option-used', 'every option is used by a method of the class that declares it, or by an object that refers to it')
    O = Options(prog)
    for f in funcs(prog):
        al = aliases(f)

        def is_opt(e, f=f, al=al):
            if isinstance(e, ast.Name) and e.id in al:
                e = al[e.id]
            if isinstance(e, ast.Name) and e.id in f.params and e.id in O.by_name:
                return True
            if not isinstance(e, ast.Attribute):
                return False
            ov = O.of(f, e)
            return ov is not None and bool(ov[1])
        for n in walk_no_nested(f.node):
            if isinstance(n, ast.If):
                a, b = n.body, n.orelse
            elif isinstance(n, ast.IfExp):
                a, b = [n.body], [n.orelse]
            else:
                continue
            if b and [ast.dump(x) for x in a] == [ast.dump(x) for x in b] and not all(isinstance(x, ast.Pass) for x in a):
                opts = [x for x in ast.walk(n.test) if isinstance(x, (ast.Attribute, ast.Name)) and is_opt(x)]
                if opts:
                    rep.viol('option-branch', f'{f.qual}:{ast.unparse(opts[0])}:both', f'{f.qual} does exactly the same whether or not {ast.unparse(n.test)}', f'{f.module.rel}:{n.lineno} {f.qual}')
        for ch in chains(f.node):
            seen = {}
            for node, t, body in ch:
                v = tested(t, is_opt) if t is not None else (next(iter(seen))[0], ['other values']) if seen else None
                if v is None:
                    continue
                rep.count('option_branches')
                x = (v[0], ''.join(ast.dump(s) for s in plain(f.node, effective(f.node, body, [b for _, _, b in ch if b is not body]))))
                if all(isinstance(s, (ast.Pass, ast.Raise)) for s in body):
                    continue
                if x in seen:
                    rep.viol('option-branch', f'{f.qual}:{v[0]}:{seen[x]}={v[1]}', f'{f.qual} does exactly the same for {v[0]} in {seen[x]} and in {v[1]}', f'{f.module.rel}:{node.lineno} {f.qual}')
                seen[x] = v[1]
    for C in prog.all_classes():
        if not C.is_traits:
            continue
        for name, t in C.attrs.items():
            if t.kind == 'Map':
                d = table(prog, C, t)
                if isinstance(d, ast.Dict):
                    rep.count('tables')
                    for a, b in duplicates(d):
                        rep.viol('option-table', f'{C.name}.{name}:{a}={b}', f'the values {a} and {b} of the option {name} of {C.name} stand for the same', t.where)
            vals = t.enum_values()
            if not vals or len(vals) < 2 or not all(isinstance(v, str) for v in vals):
                continue
            rep.count('declared_options')
            kin = [K for K in prog.all_classes() if K.issub(C) or C.issub(K)]
            names = {name, name + '_'}
            ok = False
            for f in funcs(prog):
                if f.name.startswith('_get_') and f.name.endswith('digest'):
                    continue
                for x in ast.walk(f.node):
                    if isinstance(x, ast.Attribute) and x.attr in names and isinstance(x.ctx, ast.Load):
                        if isinstance(x.value, ast.Name) and f.params and x.value.id == f.params[0] and f.cls is not None:
                            ok = ok or f.cls in kin or any(M.issub(f.cls) and M.issub(C) for M in kin)
                            continue
                        K = None
                        d = dotted(x.value)
                        if d and f.cls is not None and f.params and d.startswith(f.params[0] + '.'):
                            K = O.R.typeof(f.cls, tuple(d.split('.')[1:]))
                        ok = ok or K is None or K in kin or any(M.issub(K) and M.issub(C) for M in prog.all_classes())
                    elif isinstance(x, ast.Constant) and x.value == name:
                        ok = ok or f.cls in kin
            if not ok:
                rep.viol('option-used', f'{C.name}.{name}', f'the option {name} of {C.name} is not used by anything', t.where)
    # values handed from option to option
    for f in funcs(prog):
        al = aliases(f)
        for n in walk_no_nested(f.node):
            if not isinstance(n, ast.Call):
                continue
            K = prog.class_of_expr(n.func, f.module)
            if K is None or not K.is_traits:
                continue
            for kw in n.keywords:
                t = K.find_trait(kw.arg) if kw.arg else None
                v = t.enum_values() if t is not None else None
                e = kw.value
                if isinstance(e, ast.Name) and e.id in al:
                    e = al[e.id]
                if not v or not isinstance(e, ast.Attribute):
                    continue
                src = None
                if e.attr.endswith('_') and f.cls is not None and f.params and isinstance(e.value, ast.Name) and e.value.id == f.params[0]:
                    m = f.cls.find_trait(e.attr[:-1])
                    d = m.arg(0) if m is not None and m.kind == 'Map' else None
                    if isinstance(d, ast.Dict) and all(isinstance(x, ast.Constant) for x in d.values):
                        src = [x.value for x in d.values]
                else:
                    ov = O.of(f, e)
                    src = ov[1] if ov else None
                if src and not any(member(x, v) for x in src):
                    rep.viol('option-literal', f'{f.qual}:{K.name}.{kw.arg}={ast.unparse(kw.value)}',
                             f'{f.qual} passes one of {src} for the option {kw.arg} of {K.name}, whose declared values are {v}', f'{f.module.rel}:{n.lineno} {f.qual}')


def table(prog, C, t):
    """the dict a Map trait is declared with"""
    d = t.arg(0)
    if isinstance(d, ast.Name):
        for n in C.module.tree.body:
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and n.targets[0].id == d.id:
                return n.value
    return d


def duplicates(d):
    seen, dup = {}, []
    for k, v in zip(d.keys, d.values):
        x = ast.dump(v)
        if x in seen:
            dup.append((ast.unparse(seen[x]), ast.unparse(k)))
        seen[x] = k
    return dup
