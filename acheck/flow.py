"""Structured forward dataflow over a function body (no CFG needed: Python has no goto)."""

import ast


class Out:
    """States at the exits of a statement list; None = not reachable that way."""

    KINDS = ('next', 'brk', 'cont', 'ret', 'exc')
    __slots__ = KINDS

    def __init__(self, next=None, brk=None, cont=None, ret=None, exc=None):
        self.next, self.brk, self.cont, self.ret, self.exc = next, brk, cont, ret, exc


def join(a, b):
    if a is None:
        return b
    if b is None:
        return a
    return a.join(b)


def const_bool(e):
    if isinstance(e, ast.Constant):
        return bool(e.value)
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
        v = const_bool(e.operand)
        return None if v is None else not v
    return None


class Flow:
    """Subclass and override the hooks.  States need copy(), join(other), ==."""

    MAX_ITER = 30

    # ---------------------------------------------------------------- hooks
    def eval(self, e, st):
        """Effects of evaluating an expression (called once per evaluated expression root)."""

    def simple(self, s, st):
        """Effects of a simple statement."""

    def branch(self, test, st):
        """-> (state if true, state if false); None = infeasible."""
        c = const_bool(test)
        return (None if c is False else st.copy()), (None if c is True else st.copy())

    def bind_for(self, node, st):
        """Bind the loop target for one more iteration."""

    def for_end(self, node, st):
        """The iterator is exhausted."""

    def with_enter(self, item, st):
        self.eval(item.context_expr, st)

    def with_exit(self, item, st):
        pass

    def on_return(self, s, st):
        pass

    def may_raise(self, s):
        """can this statement / expression raise (and is that interesting)?"""
        return any(isinstance(n, (ast.Call, ast.Yield, ast.YieldFrom, ast.Raise, ast.Assert)) for n in ast.walk(s))

    def handler_enter(self, h, st):
        pass

    # ---------------------------------------------------------------- engine
    def run(self, fn, st):
        self._exc = [None]
        out = self.block(fn.body, st)
        out.exc = join(out.exc, self._exc[0])
        return out

    def _note_exc(self, st):
        self._exc[-1] = join(self._exc[-1], st.copy())

    def block(self, stmts, st):
        out = Out()
        cur = st
        for s in stmts:
            if cur is None:
                break
            o = self.stmt(s, cur)
            cur = o.next
            out.brk, out.cont, out.ret, out.exc = join(out.brk, o.brk), join(out.cont, o.cont), join(out.ret, o.ret), join(out.exc, o.exc)
        out.next = cur
        return out

    def stmt(self, s, st):
        if isinstance(s, ast.If):
            if self.may_raise(s.test):
                self._note_exc(st)
            self.eval(s.test, st)
            a, b = self.branch(s.test, st)
            oa = self.block(s.body, a) if a is not None else Out()
            ob = self.block(s.orelse, b) if b is not None else Out()
            return Out(*[join(getattr(oa, k), getattr(ob, k)) for k in Out.KINDS])
        if isinstance(s, (ast.For, ast.AsyncFor)):
            return self._for(s, st)
        if isinstance(s, ast.While):
            return self._while(s, st)
        if isinstance(s, (ast.Try, getattr(ast, 'TryStar', ast.Try))):
            return self._try(s, st)
        if isinstance(s, (ast.With, ast.AsyncWith)):
            for it in s.items:
                if self.may_raise(it.context_expr):
                    self._note_exc(st)
                self.with_enter(it, st)
            self._exc.append(None)
            o = self.block(s.body, st)
            e = self._exc.pop()
            o.exc = join(o.exc, e)
            for it in reversed(s.items):
                for k in Out.KINDS:
                    x = getattr(o, k)
                    if x is not None:
                        x = x.copy()
                        self.with_exit(it, x)
                        setattr(o, k, x)
            if o.exc is not None:
                self._note_exc(o.exc)
                if self.swallows(s):
                    o.next = join(o.next, o.exc)
            o.exc = None
            return o
        if isinstance(s, ast.Return):
            if s.value is not None:
                if self.may_raise(s.value):
                    self._note_exc(st)
                self.eval(s.value, st)
            self.on_return(s, st)
            return Out(ret=st)
        if isinstance(s, ast.Raise):
            if s.exc is not None:
                self.eval(s.exc, st)
            self.on_raise(s, st)
            self._note_exc(st)
            return Out()
        if isinstance(s, ast.Break):
            return Out(brk=st)
        if isinstance(s, ast.Continue):
            return Out(cont=st)
        if isinstance(s, ast.Match):
            self.eval(s.subject, st)
            res = Out()
            rest = st
            for c in s.cases:
                if rest is None:
                    break
                b = rest.copy()
                for n in ast.walk(c.pattern):
                    nm = getattr(n, 'name', None) or getattr(n, 'rest', None)
                    if isinstance(nm, str):
                        self.bind_name(nm, b)
                if c.guard is not None:
                    self.eval(c.guard, b)
                o = self.block(c.body, b)
                for k in Out.KINDS:
                    setattr(res, k, join(getattr(res, k), getattr(o, k)))
                if c.guard is None and isinstance(c.pattern, ast.MatchAs) and c.pattern.pattern is None:
                    rest = None
            res.next = join(res.next, rest)
            return res
        if self.may_raise(s):
            self._note_exc(st)
        self.simple(s, st)
        return Out(next=st)

    def bind_name(self, name, st):
        pass

    def swallows(self, with_stmt):
        return any('suppress' in ast.unparse(i.context_expr) for i in with_stmt.items)

    def on_raise(self, s, st):
        pass

    def _for(self, s, st):
        if self.may_raise(s.iter):
            self._note_exc(st)
        self.eval(s.iter, st)
        head = st.copy()
        res = Out()
        brk = None
        for _ in range(self.MAX_ITER):
            b = head.copy()
            self._note_exc(b)
            self.bind_for(s, b)
            o = self.block(s.body, b)
            brk = join(brk, o.brk)
            res.ret, res.exc = join(res.ret, o.ret), join(res.exc, o.exc)
            nxt = join(head, join(o.next, o.cont))
            if nxt == head:
                break
            head = nxt
        end = head.copy()
        self._note_exc(end)
        self.for_end(s, end)
        if self.nonempty(s, st):
            # at least one iteration is certain
            end2 = join(o.next, o.cont)
            if end2 is not None:
                end2 = end2.copy()
                self.for_end(s, end2)
            end = end2
        o = self.block(s.orelse, end) if s.orelse and end is not None else Out(next=end)
        return Out(next=join(o.next, brk), brk=o.brk, cont=o.cont, ret=join(res.ret, o.ret), exc=join(res.exc, o.exc))

    def nonempty(self, s, st):
        return False

    def _while(self, s, st):
        head = st.copy()
        res = Out()
        brk = None
        end = None
        for _ in range(self.MAX_ITER):
            b = head.copy()
            if self.may_raise(s.test):
                self._note_exc(b)
            self.eval(s.test, b)
            t, f = self.branch(s.test, b)
            end = join(end, f)
            o = self.block(s.body, t) if t is not None else Out()
            brk = join(brk, o.brk)
            res.ret, res.exc = join(res.ret, o.ret), join(res.exc, o.exc)
            back = join(o.next, o.cont)
            nxt = join(head, back)
            if nxt == head:
                break
            head = nxt
        o = self.block(s.orelse, end) if s.orelse and end is not None else Out(next=end)
        return Out(next=join(o.next, brk), brk=o.brk, cont=o.cont, ret=join(res.ret, o.ret), exc=join(res.exc, o.exc))

    def _try(self, s, st):
        self._exc.append(None)
        o = self.block(s.body, st.copy())
        e = join(self._exc.pop(), o.exc)
        o.exc = None
        outer = None
        res = Out(brk=o.brk, cont=o.cont, ret=o.ret)
        if o.next is not None and s.orelse:
            self._exc.append(None)
            oo = self.block(s.orelse, o.next)
            outer = join(outer, self._exc.pop())
            res.brk, res.cont, res.ret = join(res.brk, oo.brk), join(res.cont, oo.cont), join(res.ret, oo.ret)
            res.next = oo.next
        else:
            res.next = o.next
        caught_all = False
        if e is not None:
            for h in s.handlers:
                b = e.copy()
                self._exc.append(None)
                if h.name:
                    self.bind_name(h.name, b)
                self.handler_enter(h, b)
                oh = self.block(h.body, b)
                outer = join(outer, join(self._exc.pop(), oh.exc))
                res.next, res.brk, res.cont, res.ret = join(res.next, oh.next), join(res.brk, oh.brk), join(res.cont, oh.cont), join(res.ret, oh.ret)
                if h.type is None or (isinstance(h.type, ast.Name) and h.type.id == 'BaseException'):
                    caught_all = True
            if not caught_all:
                outer = join(outer, e)
        if s.finalbody:
            def fin(x):
                if x is None:
                    return None, Out()
                of = self.block(s.finalbody, x.copy())
                return of.next, of

            extra = Out()
            for k in ('next', 'brk', 'cont', 'ret'):
                n, of = fin(getattr(res, k))
                setattr(res, k, n)
                for kk in ('brk', 'cont', 'ret'):
                    setattr(extra, kk, join(getattr(extra, kk), getattr(of, kk)))
            outer, of = fin(outer)
            for kk in ('brk', 'cont', 'ret'):
                setattr(res, kk, join(getattr(res, kk), join(getattr(extra, kk), getattr(of, kk))))
        if outer is not None:
            self._note_exc(outer)
        return res


class MapState:
    """var -> frozenset of facts, joined by union."""

    def __init__(self, d=None):
        self.d = dict(d or {})

    def copy(self):
        return type(self)(self.d)

    def join(self, o):
        r = type(self)(self.d)
        for k, v in o.d.items():
            r.d[k] = r.d.get(k, frozenset()) | v
        return r

    def __eq__(self, o):
        return self.d == o.d
