"""P11: files, streams, locks and status flags are released on every exit of the function that takes them."""

import ast

from .flow import Flow, MapState
from .model import dotted, walk_no_nested
from .p24 import all_funcs

OPENERS = {'open', 'wave.open', 'io.open', 'gzip.open', 'bz2.open', 'lzma.open', 'h5py.File', 'tables.open_file', 'tables.File', 'zipfile.ZipFile',
           'tarfile.open', 'sd.InputStream', 'sd.OutputStream', 'sounddevice.InputStream', 'tempfile.NamedTemporaryFile', 'tempfile.TemporaryFile',
           'NamedTemporaryFile', 'socket.socket', 'ThreadPoolExecutor', 'ProcessPoolExecutor', 'ThreadPool', 'Pool'}
RELEASE = {'close', 'release', 'shutdown', 'terminate', 'stop'}
KEEP = {'append', 'add', 'put', 'appendleft', 'insert', 'enter_context', 'push', 'callback', 'setdefault', 'update', 'setattr', 'finalize', 'register'}
PASSIVE = {'closed', 'close', 'name', 'filename', 'release', 'isopen', 'active', 'stopped'}


def class_getters(prog):
    """functions that return a class of files"""
    out = set()
    for m in prog.modules.values():
        for f in m.functions.values():
            rets = [n.value for n in walk_no_nested(f.node) if isinstance(n, ast.Return) and n.value is not None]
            names = [r.id for r in rets if isinstance(r, ast.Name)]
            if names and any('File' in x for x in names):
                out.add(f.name)
    return out


class Ctx:
    def __init__(self, prog):
        self.prog = prog
        self.getters = class_getters(prog)
        self.factories = {}
        self.closers = {}     # function node id -> set of parameter indices closed
        self.attr_closers = {}  # (method name) -> attributes of self closed
        self.funcs = list(all_funcs(prog))
        for f, c, q in self.funcs:
            for n in walk_no_nested(f.node):
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in RELEASE:
                    d = dotted(n.func.value)
                    if d in f.params:
                        self.closers.setdefault(f.name, set()).add(f.params.index(d) - (1 if c is not None and f.params and f.params[0] == 'self' else 0))
                    if d and f.params and d.startswith(f.params[0] + '.') and c is not None:
                        self.attr_closers.setdefault(f.name, set()).add(d.split('.', 1)[1])
        changed = True
        while changed:
            changed = False
            for f, c, q in self.funcs:
                if f.generator or f.name in self.factories:
                    continue
                loc = self.file_classes(f)
                held = set()
                for n in walk_no_nested(f.node):
                    if isinstance(n, ast.Assign) and self.acquires(n.value, loc):
                        held |= {t.id for t in n.targets if isinstance(t, ast.Name)}
                for n in walk_no_nested(f.node):
                    if isinstance(n, ast.Return) and n.value is not None and (self.acquires(n.value, loc) or (isinstance(n.value, ast.Name) and n.value.id in held)):
                        self.factories[f.name] = c
                        changed = True
                        break

    def file_classes(self, f):
        loc = set()
        for n in walk_no_nested(f.node):
            if isinstance(n, ast.Assign) and isinstance(n.value, ast.Call) and (dotted(n.value.func) or '').split('.')[-1] in self.getters:
                loc |= {t.id for t in n.targets if isinstance(t, ast.Name)}
        return loc

    def acquires(self, e, loc):
        if not isinstance(e, ast.Call):
            return False
        d = dotted(e.func)
        if d:
            if d in OPENERS or d in loc:
                return True
            last = d.split('.')[-1]
            if last in self.factories:
                return '.' not in d or d.startswith('self.') if self.factories[last] is not None or '.' not in d else False
            if isinstance(e.func, ast.Attribute) and last == 'open' and d not in ('os.open', 'webbrowser.open'):
                return True
        elif isinstance(e.func, ast.Attribute) and e.func.attr == 'open':
            return True
        elif isinstance(e.func, ast.Call) and (dotted(e.func.func) or '').split('.')[-1] in self.getters:
            return True
        return False


class Res(Flow):
    def __init__(self, ctx, f, cls, qual, rep):
        self.ctx, self.f, self.cls, self.qual, self.rep = ctx, f, cls, qual, rep
        self.loc = ctx.file_classes(f)
        self.me = f.params[0] if f.params and cls is not None else None
        self.where = {}
        self.flags = self.status_flags()
        self.locks = set()
        self.reported = set()

    def status_flags(self):
        vals = {}
        for n in walk_no_nested(self.f.node):
            if isinstance(n, ast.Assign) and isinstance(n.value, ast.Constant) and isinstance(n.value.value, bool):
                for t in n.targets:
                    if isinstance(t, ast.Attribute) and dotted(t):
                        vals.setdefault(dotted(t), []).append((n.lineno, n.value.value))
        out = {}
        for d, xs in vals.items():
            xs.sort()
            if len({v for _, v in xs}) == 2 and self.sequential(d, xs):
                out[d] = xs[0][1]
        return out

    def sequential(self, d, xs):
        """both values are set on one path (not alternatives of one decision)"""
        first, last = xs[0], xs[-1]
        if first[1] == last[1]:
            return False
        nodes = {n.lineno: n for n in walk_no_nested(self.f.node) if isinstance(n, ast.Assign) and n.lineno in (first[0], last[0])}
        a, b = nodes[first[0]], nodes[last[0]]

        def chain(n):
            out = []
            while n is not None and n is not self.f.node:
                p = getattr(n, '_parent', None)
                out.append((id(p), 'body' if n in getattr(p, 'body', []) else 'orelse' if n in getattr(p, 'orelse', []) else 'x', isinstance(p, ast.If)))
                n = p
            return out
        ca, cb = chain(a), chain(b)
        ifs_a = {x for x in ca if x[2]}
        ifs_b = {x for x in cb if x[2]}
        for x in ifs_a:
            for y in ifs_b:
                if x[0] == y[0] and x[1] != y[1]:
                    return False
        # the reset must not depend on a decision the setting does not depend on
        return {(x[0], x[1]) for x in ifs_b} <= {(x[0], x[1]) for x in ifs_a} and not self.handler_only(b)

    def handler_only(self, n):
        while n is not None and n is not self.f.node:
            if isinstance(n, ast.ExceptHandler):
                return True
            n = getattr(n, '_parent', None)
        return False

    # -------------------------------------------------------------------------------------------------------------
    def report(self, rule, key, msg, node):
        k = f'{self.f.module.name}:{self.qual}:{key}'
        self.rep.viol(rule, k, f'{msg}, in {self.qual}', f'{self.f.module.rel}:{getattr(node, "lineno", self.f.node.lineno)} {self.qual}')

    def may_raise(self, s):
        if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute) and s.value.func.attr in RELEASE | {'acquire'}:
            return False
        calls = [n for n in ast.walk(s) if isinstance(n, (ast.Call, ast.Yield, ast.YieldFrom, ast.Raise, ast.Assert, ast.Await))]
        harmless = {'isinstance', 'len', 'str', 'bool', 'int', 'float', 'abs', 'min', 'max', 'range', 'print', 'closing'}
        return any(not (isinstance(n, ast.Call) and (dotted(n.func) or '').split('.')[-1] in harmless and (isinstance(n.func, ast.Name) or n.func.attr == 'closing'))
                   for n in calls)

    def toks(self, e, st):
        d = dotted(e)
        return st.d.get(('v', d), frozenset()) if d else frozenset()

    def acquire(self, e, names, st):
        tok = ('t', e.lineno, e.col_offset)
        self.where[tok] = e
        self.rep.count('acquisitions_seen') if tok not in self.reported else None
        self.reported.add(tok)
        if 'open' in st.d.get(tok, ()):
            self.report('release', f'again:{ast.unparse(e)[:60]}', f'{ast.unparse(e)} is executed again while what it returned before is still open', e)
        st.d[tok] = frozenset({'open'})
        for n in names:
            st.d['v', n] = frozenset({tok})

    def close(self, d, st):
        ts = st.d.get(('v', d), frozenset())
        for t in ts:
            st.d[t] = frozenset({'closed'}) if len(ts) == 1 else st.d.get(t, frozenset()) | {'closed'}
            if len(ts) > 1:
                st.d[t] = frozenset({'closed'})
        if ('a', d) in st.d or self.is_attr(d):
            st.d['a', d] = frozenset({'closed'})

    def is_attr(self, d):
        return bool(d) and '.' in d

    def escape(self, e, st):
        for t in self.toks(e, st):
            st.d[t] = frozenset({'gone'})

    def use(self, e, st):
        for n in ast.walk(e):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and isinstance(n.value, ast.Name) and n.attr not in PASSIVE:
                ts = self.toks(n.value, st)
                if ts and all(st.d.get(t) == frozenset({'closed'}) for t in ts):
                    self.report('use', f'{n.value.id}.{n.attr}', f'{n.value.id}.{n.attr} is used after {n.value.id} has been closed', n)

    def eval(self, e, st):
        self.use(e, st)
        for n in ast.walk(e):
            if isinstance(n, ast.Call):
                f = n.func
                if isinstance(f, ast.Attribute):
                    d = dotted(f.value)
                    if f.attr in RELEASE and d and (f.attr != 'stop'):
                        self.close(d, st)
                        if f.attr == 'release':
                            st.d['l', d] = frozenset({'free'})
                        continue
                    if f.attr == 'acquire' and d:
                        st.d['l', d] = frozenset({'held'})
                        self.rep.count('acquisitions_seen')
                        continue
                    if self.me and d == self.me and f.attr in self.ctx.attr_closers:
                        for a in self.ctx.attr_closers[f.attr]:
                            self.close(f'{self.me}.{a}', st)
                last = (dotted(f) or '').split('.')[-1] or (f.attr if isinstance(f, ast.Attribute) else '')
                if last in self.ctx.closers:
                    for i, a in enumerate(n.args):
                        if i in self.ctx.closers[last] and dotted(a):
                            self.close(dotted(a), st)
                if last in KEEP or (last[:1].isupper()) or last == 'closing':
                    for a in [*n.args, *[k.value for k in n.keywords]]:
                        self.escape(a.value if isinstance(a, ast.Attribute) else a, st)
            elif isinstance(n, (ast.Yield, ast.Return)) and n.value is not None and isinstance(n.value, ast.Name):
                self.escape(n.value, st)
            elif isinstance(n, ast.Lambda):
                for x in ast.walk(n.body):
                    if isinstance(x, ast.Name):
                        self.escape(x, st)

    def on_return(self, s, st):
        if s.value is not None:
            for n in ast.walk(s.value):
                if isinstance(n, ast.Name):
                    self.escape(n, st) if not isinstance(getattr(n, '_parent', None), ast.Attribute) else None

    def simple(self, s, st):
        if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
            for x in ast.walk(s):
                if isinstance(x, ast.Name):
                    self.escape(x, st)
            return
        if isinstance(s, (ast.Assign, ast.AnnAssign)) and s.value is not None:
            targets = s.targets if isinstance(s, ast.Assign) else [s.target]
            self.eval(s.value, st)
            if isinstance(s.value, ast.IfExp) and any(self.ctx.acquires(x, self.loc) for x in (s.value.body, s.value.orelse)):
                x = s.value.body if self.ctx.acquires(s.value.body, self.loc) else s.value.orelse
                self.acquire(x, [dotted(t) for t in targets if isinstance(t, ast.Name)], st)
                return
            if self.ctx.acquires(s.value, self.loc):
                attrs = [t for t in targets if isinstance(t, (ast.Attribute, ast.Subscript))]
                self.acquire(s.value, [dotted(t) for t in targets if isinstance(t, ast.Name)], st)
                names = {t.id for t in targets if isinstance(t, ast.Name)}
                if attrs and not self.managed_here(names):
                    st.d['t', s.value.lineno, s.value.col_offset] = frozenset({'gone'})
                    for t in attrs:
                        d = dotted(t)
                        if d and isinstance(t, ast.Attribute) and self.me and d.startswith(self.me + '.'):
                            self.attr_store(d, s, st)
                return
            if isinstance(s.value, (ast.Name, ast.Attribute)) and self.toks(s.value, st):
                ts = self.toks(s.value, st)
                for t in targets:
                    if isinstance(t, ast.Name):
                        st.d['v', t.id] = ts
                    else:
                        d = dotted(t)
                        if d and isinstance(t, ast.Attribute) and self.me and d.startswith(self.me + '.') and any(x in self.where for x in ts):
                            self.attr_store(d, s, st)
                        self.escape(s.value, st)
                return
            if isinstance(s.value, (ast.Tuple, ast.List, ast.Dict)):
                for x in ast.walk(s.value):
                    if isinstance(x, ast.Name):
                        self.escape(x, st)
            for t in targets:
                d = dotted(t)
                if d in self.flags and isinstance(s.value, ast.Constant) and isinstance(s.value.value, bool):
                    self.rep.count('flag_assignments')
                    st.d['f', d] = frozenset({'set' if s.value.value == self.flags[d] else 'rest'})
                elif isinstance(t, ast.Name):
                    # the last name of an open resource is lost
                    old = st.d.get(('v', t.id), frozenset())
                    st.d['v', t.id] = frozenset()
                    for tok in old:
                        if 'open' in st.d.get(tok, ()) and not any(tok in v for k, v in st.d.items() if k[0] == 'v'):
                            pass
            return
        if isinstance(s, ast.AugAssign):
            self.eval(s.value, st)
        elif isinstance(s, ast.Expr):
            self.eval(s.value, st)
            if self.ctx.acquires(s.value, self.loc):
                self.acquire(s.value, [], st)
        elif isinstance(s, (ast.Assert, ast.Delete)):
            pass

    def managed_here(self, names):
        for n in walk_no_nested(self.f.node):
            if isinstance(n, (ast.With, ast.AsyncWith)) and any(dotted(i.context_expr) in names for i in n.items):
                return True
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in RELEASE and dotted(n.func.value) in names:
                return True
        return False

    def attr_store(self, d, s, st):
        self.rep.count('attribute_handles')
        if 'a' and st.d.get(('a', d), frozenset({'old'})) & {'old'}:
            self.report('replace', d, f'{d} is replaced by a newly opened file without closing the one it held', s)
        st.d['a', d] = frozenset({'old'})

    def branch(self, test, st):
        a, b = super().branch(test, st)
        t, neg = test, False
        while isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            t, neg = t.operand, not neg
        d = None
        if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.comparators[0], ast.Constant) and t.comparators[0].value is None:
            d = dotted(t.left)
            if isinstance(t.ops[0], (ast.Is, ast.Eq)):
                neg = not neg
        elif isinstance(t, (ast.Name, ast.Attribute)):
            d = dotted(t)
        if d:
            none = a if neg else b     # here d is None
            if none is not None:
                for tok in none.d.get(('v', d), frozenset()):
                    if self.maybe_unset(d):
                        none.d.pop(tok, None)
                none.d['a', d] = frozenset({'none'})
                other = b if neg else a
                if other is not None:
                    other.d.setdefault(('a', d), frozenset({'old'}))
        return a, b

    def maybe_unset(self, d):
        return any(isinstance(n, ast.Assign) and isinstance(n.value, ast.Constant) and n.value.value is None and any(dotted(t) == d for t in n.targets)
                   for n in walk_no_nested(self.f.node))

    def with_enter(self, item, st):
        e = item.context_expr
        self.eval(e, st)
        if self.ctx.acquires(e, self.loc):
            self.rep.count('acquisitions_seen')
            if isinstance(item.optional_vars, ast.Name):
                tok = ('t', e.lineno, e.col_offset)
                self.where[tok] = e
                st.d[tok] = frozenset({'managed'})
                st.d['v', item.optional_vars.id] = frozenset({tok})
        elif dotted(e) and self.toks(e, st):
            for t in self.toks(e, st):
                st.d[t] = frozenset({'managed'})
            if isinstance(item.optional_vars, ast.Name):
                st.d['v', item.optional_vars.id] = self.toks(e, st)

    def with_exit(self, item, st):
        e = item.context_expr
        if self.ctx.acquires(e, self.loc):
            st.d['t', e.lineno, e.col_offset] = frozenset({'closed'})
        elif dotted(e):
            for t in self.toks(e, st):
                st.d[t] = frozenset({'closed'})

    # -------------------------------------------------------------------------------------------------------------
    def analyse(self):
        out = self.run(self.f.node, MapState())
        for kind, st in (('normally', out.next), ('normally', out.ret), ('by an exception or because its generator is closed', out.exc)):
            if st is None:
                continue
            for k, v in st.d.items():
                if k[0] == 't' and 'open' in v and k in self.where:
                    e = self.where[k]
                    self.report('release', f'{ast.unparse(e)[:60]}', f'what {ast.unparse(e)} opens stays open when the function ends {kind}', e)
                elif k[0] == 'l' and 'held' in v:
                    self.report('lock', k[1], f'{k[1]} stays locked when the function ends {kind}', self.f.node)
                elif k[0] == 'f' and 'set' in v:
                    self.report('flag', k[1], f'{k[1]} keeps the value {self.flags[k[1]]} when the function ends {kind}', self.f.node)


def check(prog, rep):
    rep.rule('release', 'every file, stream or pool opened in a function is closed, handed over or managed by with on every exit, exceptions and closed generators included')
    rep.rule('replace', 'an attribute holding an open file is closed before another one is opened into it')
    rep.rule('lock', 'every lock acquired is released on every exit')
    rep.rule('flag', 'a status flag set and reset by a function is reset on every exit')
    rep.rule('use', 'nothing is used after it has been closed')
    ctx = Ctx(prog)
    for f, c, q in ctx.funcs:
        rep.count('functions')
        Res(ctx, f, c, q, rep).analyse()
    rep.count('factories', len(ctx.factories))
    rep.floor('acquisitions_seen', 5)
    rep.floor('functions', 300)
