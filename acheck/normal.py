"""Normal form of the analysed source: differences in the way code is written that do not change what it does are removed before
any rule looks at it.  New local temporaries that are used once are replaced by their value, functions that are not in the
catalogue (that is: helpers extracted since) are put back where they are called, and a few equivalent forms are unified."""

import ast
import copy
import pathlib

CATALOGUE = pathlib.Path(__file__).with_name('catalogue.txt')


def functions(tree):
    """(container, function, class name or None) of methods and module level functions"""
    for s in tree.body:
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
            yield tree, s, None
        elif isinstance(s, ast.ClassDef):
            for f in s.body:
                if isinstance(f, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    yield s, f, s.name


def local_names(fn):
    return sorted({n.id for n in ast.walk(fn) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)})


def catalogue(trees):
    out = []
    for mod in sorted(trees):
        for _, f, c in functions(trees[mod]):
            out.append(f'{mod}:{c + "." if c else ""}{f.name} {",".join(local_names(f))}'.rstrip())
    return '\n'.join(sorted(set(out))) + '\n'


def load():
    out = {}
    if CATALOGUE.exists():
        for line in CATALOGUE.read_text().splitlines():
            k, _, v = line.partition(' ')
            out.setdefault(k, set()).update(v.split(',') if v else ())
    return out


def bodies(node):
    """all statement lists below node"""
    for n in ast.walk(node):
        for field in ('body', 'orelse', 'finalbody'):
            b = getattr(n, field, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                yield n, field, b


# ------------------------------------------------------------------ temporaries
def header(s):
    """expressions of a statement that are evaluated first and once"""
    if isinstance(s, (ast.Return, ast.Expr, ast.Assign, ast.AugAssign, ast.AnnAssign)):
        return [s.value] if s.value is not None else []
    if isinstance(s, ast.If):
        return [s.test]
    if isinstance(s, (ast.For, ast.AsyncFor)):
        return [s.iter]
    if isinstance(s, (ast.With, ast.AsyncWith)):
        return [s.items[0].context_expr]
    if isinstance(s, ast.Raise):
        return [x for x in (s.exc,) if x is not None]
    if isinstance(s, ast.Assert):
        return [s.test]
    return []


class Put(ast.NodeTransformer):
    def __init__(self, name, value):
        self.name, self.value, self.done = name, value, 0

    def visit_Name(self, n):
        if n.id == self.name and isinstance(n.ctx, ast.Load):
            self.done += 1
            return self.value
        return n

    def visit_Lambda(self, n):
        return n

    def visit_FunctionDef(self, n):
        return n


def in_closure(fn, name):
    for n in ast.walk(fn):
        if n is not fn and isinstance(n, (ast.Lambda, ast.FunctionDef, ast.GeneratorExp, ast.ListComp, ast.SetComp, ast.DictComp, ast.ClassDef)):
            if any(isinstance(x, ast.Name) and x.id == name for x in ast.walk(n)):
                return True
    return False


def temporaries(fn, known):
    args = {a.arg for a in fn.args.args + fn.args.kwonlyargs + fn.args.posonlyargs}
    for _ in range(4):
        loads, stores = {}, {}
        for n in ast.walk(fn):
            if isinstance(n, ast.Name):
                d = loads if isinstance(n.ctx, ast.Load) else stores
                d[n.id] = d.get(n.id, 0) + 1
            elif isinstance(n, (ast.Global, ast.Nonlocal)):
                for x in n.names:
                    stores[x] = stores.get(x, 0) + 1000
            elif isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name):
                stores[n.target.id] = stores.get(n.target.id, 0) + 1000
        cand = {}
        for node, field, b in bodies(fn):
            for i in range(len(b) - 1):
                s, t = b[i], b[i + 1]
                if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
                    nm = s.targets[0].id
                    if nm in known or nm in args:
                        continue
                    n = sum(isinstance(x, ast.Name) and x.id == nm and isinstance(x.ctx, ast.Load) for h in header(t) for x in ast.walk(h))
                    if n == 1:
                        cand.setdefault(nm, []).append((b, s, t))
        done = False
        for nm, uses in cand.items():
            if stores.get(nm) != len(uses) or loads.get(nm) != len(uses) or in_closure(fn, nm):
                continue
            for b, s, t in uses:
                if s not in b:
                    continue
                p = Put(nm, s.value)
                for f in ('value', 'test', 'iter', 'exc'):
                    v = getattr(t, f, None)
                    if isinstance(v, ast.expr):
                        setattr(t, f, p.visit(v))
                        if p.done:
                            break
                if not p.done and isinstance(t, (ast.With, ast.AsyncWith)):
                    t.items[0].context_expr = p.visit(t.items[0].context_expr)
                if p.done == 1:
                    b.remove(s)
                    done = True
        if not done:
            return


# ------------------------------------------------------------------ equivalent forms
class Forms(ast.NodeTransformer):
    def visit_If(self, n):
        self.generic_visit(n)
        if isinstance(n.test, ast.UnaryOp) and isinstance(n.test.op, ast.Not) and n.orelse and not (len(n.orelse) == 1 and isinstance(n.orelse[0], ast.If)):
            n.test, n.body, n.orelse = n.test.operand, n.orelse, n.body
        return n

    def visit_While(self, n):
        self.generic_visit(n)
        # while True: if c: break; ...
        while isinstance(n.test, ast.Constant) and n.test.value and n.body and not n.orelse:
            s = n.body[0]
            if isinstance(s, ast.If) and len(s.body) == 1 and isinstance(s.body[0], ast.Break) and not s.orelse and len(n.body) > 1:
                t = s.test
                n.test = t.operand if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not) else ast.copy_location(ast.UnaryOp(ast.Not(), t), t)
                n.body = n.body[1:]
            else:
                break
        return n

    FLIP = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and type(n.ops[0]) in self.FLIP:
            l, r = n.left, n.comparators[0]
            const = lambda e: isinstance(e, ast.Constant) or isinstance(e, ast.UnaryOp) and isinstance(e.operand, ast.Constant)
            if const(l) and not const(r):
                n.left, n.comparators, n.ops = r, [l], [self.FLIP[type(n.ops[0])]()]
        return n


# ------------------------------------------------------------------ helpers
SKIP_PRE = ('_get_', '_set_', '_validate_', '__')
SKIP_POST = ('_changed', '_fired', '_default', '_updated')


class Subst(ast.NodeTransformer):
    def __init__(self, exprs, names):
        self.exprs, self.names = exprs, names

    def visit_Name(self, n):
        if n.id in self.exprs and isinstance(n.ctx, ast.Load):
            return copy.deepcopy(self.exprs[n.id])
        if n.id in self.names:
            return ast.copy_location(ast.Name(self.names[n.id], n.ctx), n)
        return n

    def visit_ExceptHandler(self, n):
        self.generic_visit(n)
        if n.name in self.names:
            n.name = self.names[n.name]
        return n


def simple(e):
    while isinstance(e, ast.Attribute):
        e = e.value
    return isinstance(e, (ast.Name, ast.Constant))


def strip_doc(body):
    if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant) and isinstance(body[0].value.value, str):
        return body[1:]
    return body


def returns(stmts):
    out = []
    todo = list(stmts)
    while todo:
        n = todo.pop()
        if isinstance(n, ast.Return):
            out.append(n)
        if not isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            todo += list(ast.iter_child_nodes(n))
    return out


def tail_form(stmts):
    """every return at the end of a path through if statements only; None if that is not possible"""
    out = []
    for i, s in enumerate(stmts):
        if isinstance(s, ast.Return):
            return out + [s]
        if isinstance(s, ast.If) and returns([s]):
            rest = stmts[i + 1:]
            a, b = tail_form(s.body), tail_form(s.orelse) if s.orelse else []
            if a is None or b is None:
                return None
            ea, eb = ends(a), ends(b)
            if rest:
                if not ea:
                    a = tail_form(a + rest)
                if not eb:
                    b = tail_form(b + copy.deepcopy(rest) if not ea else b + rest)
                if a is None or b is None:
                    return None
            out.append(ast.copy_location(ast.If(s.test, a or [ast.copy_location(ast.Pass(), s)], b), s))
            return out
        if returns([s]):
            return None
        out.append(s)
    return out


def ends(stmts):
    if not stmts:
        return False
    s = stmts[-1]
    if isinstance(s, (ast.Return, ast.Raise)):
        return True
    return isinstance(s, ast.If) and bool(s.orelse) and ends(s.body) and ends(s.orelse)


def replace_returns(stmts, make):
    out = []
    for s in stmts:
        if isinstance(s, ast.Return):
            out += make(s)
        elif isinstance(s, ast.If):
            s.body = replace_returns(s.body, make) or [ast.copy_location(ast.Pass(), s)]
            s.orelse = replace_returns(s.orelse, make)
            out.append(s)
        else:
            out.append(s)
    return out


class Helper:
    def __init__(self, mod, container, fn, cls):
        self.mod, self.container, self.fn, self.cls = mod, container, fn, cls
        self.static = any(isinstance(d, ast.Name) and d.id == 'staticmethod' for d in fn.decorator_list)
        self.gen = any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in ast.walk(fn))
        self.body = strip_doc(fn.body)

    def usable(self):
        f = self.fn
        if f.args.vararg or f.args.kwarg or f.args.posonlyargs:
            return False
        for d in f.decorator_list:
            if not (isinstance(d, ast.Name) and d.id == 'staticmethod'):
                return False
        for n in ast.walk(f):
            if n is not f and isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Global, ast.Nonlocal, ast.AsyncFunctionDef)):
                return False
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'super':
                return False
            if isinstance(n, (ast.Name, ast.Attribute)) and (getattr(n, 'id', None) == f.name or getattr(n, 'attr', None) == f.name):
                return False
        if isinstance(f, ast.AsyncFunctionDef):
            return False
        return not (f.name.startswith(SKIP_PRE) or f.name.endswith(SKIP_POST))

    def is_call(self, e):
        if not isinstance(e, ast.Call):
            return False
        if self.cls is None:
            return isinstance(e.func, ast.Name) and e.func.id == self.fn.name
        return isinstance(e.func, ast.Attribute) and e.func.attr == self.fn.name and isinstance(e.func.value, ast.Name)

    def bind(self, call):
        """parameter -> argument, or None"""
        ps = [a.arg for a in self.fn.args.args]
        out = {}
        if self.cls is not None and not self.static:
            out[ps[0]] = call.func.value
            ps = ps[1:]
        if any(isinstance(a, ast.Starred) for a in call.args) or any(k.arg is None for k in call.keywords) or len(call.args) > len(ps):
            return None
        for p, a in zip(ps, call.args):
            out[p] = a
        for k in call.keywords:
            out[k.arg] = k.value
        df = self.fn.args.defaults
        for p, d in zip([a.arg for a in self.fn.args.args][len(self.fn.args.args) - len(df):], df):
            out.setdefault(p, d)
        for a, d in zip(self.fn.args.kwonlyargs, self.fn.args.kw_defaults):
            if d is not None:
                out.setdefault(a.arg, d)
        allp = [a.arg for a in self.fn.args.args + self.fn.args.kwonlyargs]
        return out if set(allp) == set(out) else None

    def expand(self, call, caller, n):
        """(prologue statements, body) with arguments put in and names kept apart, or None"""
        b = self.bind(call)
        if b is None:
            return None
        used = {x.id for x in ast.walk(caller) if isinstance(x, ast.Name)} | {a.arg for a in caller.args.args}
        stored = {x.id for s in self.body for x in ast.walk(s) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
        stored |= {x.name for s in self.body for x in ast.walk(s) if isinstance(x, ast.ExceptHandler) and x.name}
        names = {}
        exprs, pro = {}, []
        # names a caller assigns from the result may keep their name
        for p, a in b.items():
            uses = sum(isinstance(x, ast.Name) and x.id == p for s in self.body for x in ast.walk(s))
            if p not in stored and (simple(a) or uses <= 1 and not isinstance(a, (ast.Lambda,))) and not (isinstance(a, ast.Name) and a.id in stored and a.id not in b):
                exprs[p] = a
            elif isinstance(a, ast.Name) and a.id == p:
                # parameter is reassigned inside: keep apart from the caller's variable
                names[p] = f'{p}__{n}'
                pro.append(ast.copy_location(ast.Assign([ast.copy_location(ast.Name(names[p], ast.Store()), call)], a), call))
            else:
                names[p] = f'{p}__{n}' if p in used else p
                pro.append(ast.copy_location(ast.Assign([ast.copy_location(ast.Name(names[p], ast.Store()), call)], a), call))
        for x in stored - set(b):
            if x in used:
                names[x] = f'{x}__{n}'
        body = copy.deepcopy(self.body)
        sub = Subst(exprs, names)
        body = [sub.visit(s) for s in body]
        return pro, body, names


def put_back(trees, known):
    defined = {}
    for mod, t in trees.items():
        for cont, f, c in functions(t):
            defined.setdefault(f.name, []).append((mod, cont, f, c))
    helpers = []
    for name, ds in defined.items():
        if len(ds) == 1:
            mod, cont, f, c = ds[0]
            if f'{mod}:{c + "." if c else ""}{name}' not in known:
                h = Helper(mod, cont, f, c)
                if h.usable():
                    helpers.append(h)
    if not helpers:
        return False
    count = [0]
    changed = False
    for h in helpers:
        refs = 0
        for t in trees.values():
            for n in ast.walk(t):
                if isinstance(n, ast.Attribute) and n.attr == h.fn.name or isinstance(n, ast.Name) and n.id == h.fn.name or isinstance(n, ast.Constant) and n.value == h.fn.name:
                    refs += 1
        done = 0
        if not 0 < refs <= 6:
            continue
        for t in trees.values():
            for cont, caller, c in functions(t):
                if caller is h.fn:
                    continue
                k = inline_into(h, caller, count)
                done += k
        if done:
            changed = True
        if done == refs and h.fn in h.container.body:
            h.container.body.remove(h.fn)
            if not h.container.body:
                h.container.body.append(ast.copy_location(ast.Pass(), h.fn))
    return changed


def unconditional(root, call):
    """is the call evaluated exactly once whenever root is"""
    def go(e):
        if e is call:
            return True
        if isinstance(e, (ast.Lambda, ast.GeneratorExp, ast.ListComp, ast.SetComp, ast.DictComp)):
            return False
        if isinstance(e, ast.IfExp):
            return go(e.test)
        if isinstance(e, ast.BoolOp):
            return go(e.values[0])
        return any(go(x) for x in ast.iter_child_nodes(e))
    return go(root)


class ReplaceNode(ast.NodeTransformer):
    def __init__(self, old, new):
        self.old, self.new = old, new

    def visit(self, n):
        if n is self.old:
            return self.new
        return self.generic_visit(n)


def inline_into(h, caller, count):
    done = 0
    for _ in range(6):
        hit = False
        for node, field, b in list(bodies(caller)):
            for i, s in enumerate(list(b)):
                r = inline_stmt(h, caller, node, b, s, count)
                if r is not None:
                    j = b.index(s)
                    b[j:j + 1] = r
                    done += 1
                    hit = True
                    break
            if hit:
                break
        if not hit:
            break
    return done


def last_in_function(caller, node, b, s):
    """nothing runs after s in the caller"""
    if b[-1] is not s:
        return False
    while node is not caller:
        if isinstance(node, (ast.For, ast.While, ast.Try, ast.With)):
            return False
        par = None
        for n, f, bb in bodies(caller):
            if node in bb:
                par = (n, bb)
        if par is None or par[1][-1] is not node:
            return False
        node = par[0]
    return True


def inline_stmt(h, caller, node, b, s, count):
    hs = header(s)
    calls = [c for x in hs for c in ast.walk(x) if h.is_call(c)]
    if not calls:
        if isinstance(s, ast.While):
            calls = [c for c in ast.walk(s.test) if h.is_call(c)]
            hs = [s.test]
        if not calls:
            return None
    call = calls[0]
    count[0] += 1
    n = count[0]
    # expression helpers
    if len(h.body) == 1 and isinstance(h.body[0], ast.Return) and h.body[0].value is not None and not h.gen:
        ex = h.expand(call, caller, n)
        if ex is None:
            return None
        pro, body, names = ex
        if pro and (isinstance(s, ast.While) or not any(unconditional(x, call) for x in hs)):
            return None
        new = ReplaceNode(call, body[0].value).visit(s)
        return pro + [new]
    if isinstance(s, ast.While):
        return None
    # generators
    if h.gen:
        if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.YieldFrom) and s.value.value is call):
            return None
        if returns(h.body) and not last_in_function(caller, node, b, s):
            t = tail_form(copy.deepcopy(h.body))
            if t is None:
                return None
        ex = h.expand(call, caller, n)
        if ex is None:
            return None
        pro, body, names = ex
        if returns(body) and not last_in_function(caller, node, b, s):
            body = replace_returns(tail_form(body), lambda r: [])
        return pro + body
    ex = h.expand(call, caller, n)
    if ex is None:
        return None
    pro, body, names = ex
    direct = hs and hs[0] is call
    if isinstance(s, ast.Return) and direct:
        if not ends(body):
            body = body + [ast.copy_location(ast.Return(None), s)]
        return pro + body
    t = tail_form(body)
    if t is None:
        return None
    if isinstance(s, ast.Expr) and direct:
        keep = lambda r: [ast.copy_location(ast.Expr(r.value), r)] if r.value is not None and not isinstance(r.value, (ast.Constant, ast.Name)) else []
        return pro + (replace_returns(t, keep) or [ast.copy_location(ast.Pass(), s)])
    none = lambda r: r.value if r.value is not None else ast.copy_location(ast.Constant(None), r)
    if isinstance(s, ast.Assign) and direct and len(s.targets) == 1:
        if not ends(t):
            return None
        tgt = s.targets[0]

        def make(r):
            v = none(r)
            if isinstance(tgt, ast.Tuple) and isinstance(v, ast.Tuple) and len(tgt.elts) == len(v.elts):
                # a, b = x__1, y__1: the same names again
                same = all(isinstance(p, ast.Name) and isinstance(q, ast.Name) and q.id == p.id for p, q in zip(tgt.elts, v.elts))
                if same:
                    return []
            if isinstance(tgt, ast.Name) and isinstance(v, ast.Name) and v.id == tgt.id:
                return []
            return [ast.copy_location(ast.Assign([copy.deepcopy(tgt)], v), r)]
        # locals of the helper that only become the target of the call take the caller's name
        back = {}
        rs = returns(t)
        if len(rs) == 1 and rs[0].value is not None:
            v = rs[0].value
            pairs = []
            if isinstance(tgt, ast.Name) and isinstance(v, ast.Name):
                pairs = [(tgt.id, v.id)]
            elif isinstance(tgt, ast.Tuple) and isinstance(v, ast.Tuple) and len(tgt.elts) == len(v.elts):
                pairs = [(p.id, q.id) for p, q in zip(tgt.elts, v.elts) if isinstance(p, ast.Name) and isinstance(q, ast.Name)]
            inner = {x.id for st in t + pro for x in ast.walk(st) if isinstance(x, ast.Name)}
            made = set(names.values())
            hl = {x.id for st in t + pro for x in ast.walk(st) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
            for p, q in pairs:
                if q in hl and q != p and (p not in inner or q in made and q.startswith(p + '__')):
                    # the old value of p must not be needed after q gets its value
                    if p not in inner or all(isinstance(x, ast.Assign) for x in pro if isinstance(x, ast.Assign)):
                        back[q] = p
        if back:
            r = Subst({}, back)
            t = [r.visit(x) for x in t]
            pro = [r.visit(x) for x in pro]
            pro = [x for x in pro if not (isinstance(x, ast.Assign) and isinstance(x.targets[0], ast.Name) and isinstance(x.value, ast.Name) and x.targets[0].id == x.value.id)]
        return pro + replace_returns(t, make)
    # somewhere inside the first expression of the statement
    if not any(unconditional(x, call) for x in hs) or not ends(t):
        return None
    tmp = f'{h.fn.name}__{n}'
    new = ReplaceNode(call, ast.copy_location(ast.Name(tmp, ast.Load()), call)).visit(s)
    mk = lambda r: [ast.copy_location(ast.Assign([ast.copy_location(ast.Name(tmp, ast.Store()), r)], none(r)), r)]
    return pro + replace_returns(t, mk) + [new]


def normalise(trees, known=None):
    """in place, before anything refers to the nodes"""
    known = load() if known is None else known
    for t in trees.values():
        Forms().visit(t)
    for _ in range(4):
        if not put_back(trees, known):
            break
    for mod, t in trees.items():
        for cont, f, c in functions(t):
            k = f'{mod}:{c + "." if c else ""}{f.name}'
            if k in known or known:
                temporaries(f, known.get(k, set()))
        ast.fix_missing_locations(t)
