"""P23: consumers that share one source each get every block, in order, also from several threads."""

import ast

from .flow import Flow
from .model import dotted, walk_no_nested
from .p10 import locks_of

PUT = {'append': 'R', 'appendleft': 'L'}
TAKE = {'pop': 'R', 'popleft': 'L'}


def self_attr(e, me):
    return e.attr if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and e.value.id == me else None


class Roles:
    """which attribute is what, from how it is used"""

    def __init__(self, prog, C):
        self.buffers = self.gen = self.exist = self.overflow = self.treat = None
        self.locks = locks_of(C)
        methods = C.all_methods()
        for f in methods.values():
            me = f.params[0] if f.params else 'self'
            for n in ast.walk(f.node):
                if isinstance(n, ast.Assign):
                    for t in n.targets:
                        if isinstance(t, ast.Subscript) and self_attr(t.value, me) and isinstance(n.value, ast.Call) and (dotted(n.value.func) or '').split('.')[-1] == 'deque':
                            self.buffers = t.value.attr
                        a = self_attr(t, me)
                        if a and any(isinstance(k, ast.Call) and isinstance(k.func, ast.Attribute) and k.func.attr == 'result' for k in ast.walk(n.value)):
                            self.gen = a
        if self.buffers is None or self.gen is None:
            return
        for f in methods.values():
            me = f.params[0] if f.params else 'self'
            uses_max = any(isinstance(n, ast.Attribute) and n.attr == 'maxlen' for n in ast.walk(f.node))
            makes = any(isinstance(n, ast.Assign) and any(self_attr(t, me) == self.gen for t in n.targets) and not (isinstance(n.value, ast.Constant)) for n in ast.walk(f.node))
            for n in ast.walk(f.node):
                if isinstance(n, ast.Assign) and isinstance(n.value, ast.Constant) and n.value.value is True:
                    for t in n.targets:
                        a = self_attr(t, me)
                        if a and makes:
                            self.exist = a
        flags = {}
        for f in methods.values():
            me = f.params[0] if f.params else 'self'
            for n in ast.walk(f.node):
                if isinstance(n, ast.Assign) and isinstance(n.value, ast.Constant) and n.value.value is True:
                    for t in n.targets:
                        a = self_attr(t, me)
                        if a and a != self.exist:
                            flags[a] = f
        for a in flags:
            self.overflow = a
        self.ok = None not in (self.buffers, self.gen, self.exist, self.overflow)

    ok = False


class St:
    """set of path facts"""

    def __init__(self, s=frozenset({frozenset()})):
        self.s = frozenset(s)

    def copy(self):
        return St(self.s)

    def join(self, o):
        return St(self.s | o.s)

    def __eq__(self, o):
        return self.s == o.s

    def add(self, *fs):
        self.s = frozenset(x | set(fs) for x in self.s)

    def drop(self, *fs):
        self.s = frozenset(x - set(fs) for x in self.s)

    def all(self, f):
        return all(f in x for x in self.s)

    def some(self, f):
        return any(f in x for x in self.s)


class Run(Flow):
    def __init__(self, prog, C, roles, rep, key):
        self.prog, self.C, self.r, self.rep, self.key = prog, C, roles, rep, key
        self.stack = []
        self.me = 'self'
        self.alias = {}
        self.lookahead = 0

    # ------------------------------------------------------------ helpers
    def viol(self, rule, what, node, msg):
        self.rep.viol(rule, f'{self.key}:{what}', msg, f'{self.C.module.rel}:{getattr(node, "lineno", 0)} {self.key}')

    def is_buf(self, e):
        """the table of buffers"""
        return self_attr(e, self.me) == self.r.buffers

    def over_buffers(self, e):
        """iteration over all buffers -> kind of element ('key', 'value', 'item')"""
        if self.is_buf(e):
            return 'key'
        if isinstance(e, ast.Call):
            if isinstance(e.func, ast.Name) and e.func.id in ('list', 'tuple', 'iter', 'reversed', 'sorted') and len(e.args) == 1:
                return self.over_buffers(e.args[0])
            if isinstance(e.func, ast.Attribute) and self.is_buf(e.func.value):
                return {'keys': 'key', 'values': 'value', 'items': 'item', 'copy': 'key'}.get(e.func.attr)
        return None

    def own(self, e):
        """the buffer of the calling object"""
        if isinstance(e, ast.Name):
            return self.alias.get(e.id) == 'own'
        if isinstance(e, ast.Subscript):
            return self.is_buf(e.value)
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr == 'get':
            return self.is_buf(e.func.value)
        return False

    def elem_ops(self, stmts, elems, cond=False, depth=0):
        """operations on the buffer of one element of a loop over all buffers: (op, conditional, node)"""
        out = []
        if depth > 4:
            return out
        for s in stmts:
            if isinstance(s, ast.If):
                out += self.elem_ops(s.body, elems, True, depth) + self.elem_ops(s.orelse, elems, True, depth)
                continue
            if any(isinstance(n, (ast.Continue, ast.Break)) for n in ast.walk(s)):
                cond = True
            for n in ast.walk(s):
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute):
                    b = n.func.value
                    hit = isinstance(b, ast.Name) and b.id in elems and elems[b.id] == 'value' or \
                        isinstance(b, ast.Subscript) and self.is_buf(b.value) and isinstance(b.slice, ast.Name) and elems.get(b.slice.id) == 'key'
                    if hit:
                        out.append((n.func.attr, cond, n))
                    elif isinstance(b, ast.Name) and b.id == self.me:
                        g = self.C.find_method(n.func.attr)
                        if g is not None:
                            m = {}
                            for p, a in zip(g.params[1:], n.args):
                                if isinstance(a, ast.Name) and a.id in elems:
                                    m[p] = elems[a.id]
                                elif isinstance(a, ast.Subscript) and self.is_buf(a.value) and isinstance(a.slice, ast.Name) and elems.get(a.slice.id) == 'key':
                                    m[p] = 'value'
                            if m:
                                save, self.me = self.me, g.params[0]
                                out += self.elem_ops(g.node.body, m, cond, depth + 1)
                                self.me = save
        return out

    def bulk(self, ops, node, st):
        """effects of an operation on every buffer"""
        for op, cond, n in ops:
            if op == 'clear':
                if cond:
                    self.viol('all-consumers', 'clear', n, 'only some of the buffers are cleared when a new run starts')
                self.need_lock(n, 'buffers are cleared', st)
                st.add('cleared')
            elif op in PUT:
                self.rep.count('distributions')
                if cond:
                    self.viol('all-consumers', 'put', n, 'a block is given only to some of the registered objects')
                self.need_lock(n, 'a block is put into the buffers', st)
                self.sides.add(('put', PUT[op], n.lineno))
                a = n.args[0] if n.args else None
                if a is not None and any(isinstance(k, ast.Call) and (dotted(k.func) == 'next' or isinstance(k.func, ast.Attribute) and k.func.attr == '__next__') for k in ast.walk(a)):
                    self.viol('all-consumers', 'next', n, 'every registered object gets a different block of the source')
                if not st.all('block'):
                    self.viol('all-consumers', 'block', n, 'no new block of the source is distributed')
                st.drop('block')
            elif op in ('insert', 'extend', 'extendleft'):
                self.viol('order', op, n, f'blocks are put into the buffer with {op}, which does not keep their order')

    def need_lock(self, n, what, st):
        self.rep.count('guarded_operations')
        if not st.all('L'):
            self.viol('lock', f'{what.replace(" ", "-")}', n, f'{what} without holding the lock')

    # ------------------------------------------------------------ flow
    sides = set()

    def with_enter(self, item, st):
        if self_attr(item.context_expr, self.me) in self.r.locks:
            st.drop('empty', 'nonempty?', 'nogen', 'insp')
            st.add('L')
        else:
            self.eval(item.context_expr, st)

    def with_exit(self, item, st):
        if self_attr(item.context_expr, self.me) in self.r.locks:
            self.leave(st, item.context_expr)

    def leave(self, st, node):
        for x in st.s:
            if 'created' in x:
                if 'cleared' not in x:
                    self.viol('fresh-run', 'buffers', node, 'a new run starts with blocks of the previous run in the buffers')
                if 'reset' not in x:
                    self.viol('fresh-run', 'overflow', node, 'a new run starts with the overflow state of the previous run')
                if 'marked' not in x:
                    self.viol('fresh-run', 'mark', node, 'a new generator is created but not marked as existing: the next consumer creates another one')
        st.drop('L', 'empty', 'nogen', 'insp', 'created', 'cleared', 'reset', 'marked')

    def _for(self, s, st):
        k = self.over_buffers(s.iter)
        if k is not None:
            elems = {}
            if k == 'item' and isinstance(s.target, ast.Tuple) and len(s.target.elts) == 2:
                for t, kk in zip(s.target.elts, ('key', 'value')):
                    if isinstance(t, ast.Name):
                        elems[t.id] = kk
            elif isinstance(s.target, ast.Name):
                elems[s.target.id] = k
            for x in s.body:
                # aliases inside the loop body
                if isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name) and isinstance(x.value, ast.Subscript) and self.is_buf(x.value.value):
                    elems[x.targets[0].id] = 'value'
            self.bulk(self.elem_ops(s.body, elems), s, st)
        return super()._for(s, st)

    def eval(self, e, st):
        for n in self.order(e):
            if isinstance(n, (ast.ListComp, ast.GeneratorExp, ast.SetComp)):
                g = n.generators[0]
                k = self.over_buffers(g.iter)
                if k is not None:
                    elems = {}
                    if isinstance(g.target, ast.Name):
                        elems[g.target.id] = k
                    elif k == 'item' and isinstance(g.target, ast.Tuple):
                        for t, kk in zip(g.target.elts, ('key', 'value')):
                            if isinstance(t, ast.Name):
                                elems[t.id] = kk
                    self.bulk([(o, c or bool(g.ifs), x) for o, c, x in self.elem_ops([ast.Expr(n.elt)], elems)], n, st)
            elif isinstance(n, ast.Call):
                self.call(n, st)
            elif isinstance(n, ast.Yield):
                self.rep.count('deliveries')
                if not st.all('ovf_ok'):
                    self.viol('overflow-first', 'yield', n, 'a block is handed out although blocks may have been lost since the overflow state was last tested')
                if not st.all('taken'):
                    self.viol('delivery', 'yield', n, 'what is handed out is not a block taken from the buffer of the calling object')
                st.drop('taken', 'nonempty', 'L') if False else st.drop('taken', 'nonempty')
                if st.some('L'):
                    self.viol('lock', 'yield', n, 'the lock is held while the consumer works on a block: other consumers wait for it')

    def order(self, e):
        """sub expressions in evaluation order, innermost first"""
        out = []

        def visit(n):
            if isinstance(n, (ast.Lambda, ast.FunctionDef)):
                return
            for k in ast.iter_child_nodes(n):
                visit(k)
            out.append(n)

        visit(e)
        return out

    def is_next(self, n):
        if isinstance(n.func, ast.Name) and n.func.id == 'next' and n.args:
            return self_attr(n.args[0], self.me) == self.r.gen
        return isinstance(n.func, ast.Attribute) and n.func.attr == '__next__' and self_attr(n.func.value, self.me) == self.r.gen

    def call(self, n, st):
        f = n.func
        if self.is_next(n):
            self.rep.count('fetches')
            self.need_lock(n, 'the next block is fetched', st)
            if not st.all('empty'):
                self.viol('check-then-act', 'fetch', n, 'a block is fetched although the buffer of the caller was not found empty while the lock is held: '
                                                        'another consumer may just have filled it')
            if not st.all('insp'):
                self.viol('overflow-first', 'fetch', n, 'a block is fetched without testing whether the buffers can take it')
            st.drop('empty', 'insp', 'ovf_ok')
            st.add('block')
            return
        if isinstance(f, ast.Attribute):
            if f.attr in TAKE and self.own(f.value):
                self.rep.count('takes')
                self.sides.add(('take', TAKE[f.attr], n.lineno))
                if n.args:
                    self.viol('order', 'take', n, 'a block is taken from the middle of the buffer')
                if not st.all('nonempty'):
                    self.viol('delivery', 'take', n, 'a block is taken from a buffer that may be empty')
                st.add('taken')
                st.drop('nonempty')
                return
            if isinstance(f.value, ast.Name) and f.value.id == self.me:
                g = self.C.find_method(f.attr)
                if g is not None and not g.generator and g.node not in self.stack and len(self.stack) < 6:
                    self.enter(g, n, st)

    def enter(self, g, n, st):
        save = self.me, self.alias, self._exc
        self.me = g.params[0] if g.params else 'self'
        self.alias = {}
        for p, a in zip(g.params[1:], n.args):
            if self.own(a):
                self.alias[p] = 'own'
        self.stack.append(g.node)
        self._exc = [None]
        insp = self.inspects(g.node)
        out = self.block(g.node.body, st.copy())
        exc = self._exc[0]
        self.me, self.alias, self._exc = save
        self.stack.pop()
        end = out.next if out.ret is None else (out.ret if out.next is None else out.next.join(out.ret))
        if exc is not None:
            self._note_exc(exc)
        st.s = end.s if end is not None else frozenset()
        if insp and end is not None:
            st.add('insp')

    def inspects(self, fn):
        return inspects(fn, self.me if False else fn.args.args[0].arg, self.r)

    def simple(self, s, st):
        if isinstance(s, ast.Expr):
            self.eval(s.value, st)
            return
        if isinstance(s, (ast.Assign, ast.AnnAssign, ast.AugAssign)):
            if s.value is not None:
                self.eval(s.value, st)
            for t in s.targets if isinstance(s, ast.Assign) else [s.target]:
                a = self_attr(t, self.me)
                if isinstance(t, ast.Name):
                    self.alias.pop(t.id, None)
                    if self.own(s.value):
                        self.alias[t.id] = 'own'
                if a == self.r.gen and not (isinstance(s.value, ast.Constant) and s.value.value is None):
                    self.rep.count('creations')
                    self.need_lock(s, 'a generator of the source is created', st)
                    if not st.all('nogen'):
                        self.viol('check-then-act', 'create', s, 'a generator of the source is created although it was not found missing while the lock is held')
                    st.add('created')
                elif a == self.r.exist:
                    self.need_lock(s, 'the generator is marked', st)
                    if isinstance(s.value, ast.Constant) and s.value.value:
                        st.add('marked')
                        st.drop('ended')
                    else:
                        st.add('ended')
                elif a == self.r.overflow:
                    self.need_lock(s, 'the overflow state is changed', st)
                    if isinstance(s.value, ast.Constant) and not s.value.value:
                        st.add('reset')
            return
        if isinstance(s, ast.Assert):
            self.eval(s.test, st)

    def branch(self, test, st):
        a, b = st.copy(), st.copy()
        self.refine(test, True, a)
        self.refine(test, False, b)
        return (a if a.s else None), (b if b.s else None)

    def refine(self, t, val, st):
        if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            return self.refine(t.operand, not val, st)
        if isinstance(t, ast.BoolOp):
            if isinstance(t.op, ast.And) == val:
                for v in t.values:
                    self.refine(v, val, st)
            return None
        if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.left, ast.Call) and dotted(t.left.func) == 'len' and t.left.args:
            c = t.comparators[0]
            if isinstance(c, ast.Constant) and c.value in (0, 1):
                op = t.ops[0]
                nonempty = None
                if c.value == 0:
                    nonempty = {ast.Gt: True, ast.NotEq: True, ast.Eq: False, ast.LtE: False}.get(type(op))
                else:
                    nonempty = {ast.GtE: True, ast.Lt: False}.get(type(op))
                if nonempty is not None:
                    return self.refine(t.left.args[0], val == nonempty, st)
            return None
        if isinstance(t, ast.Call) and dotted(t.func) in ('len', 'bool') and t.args:
            return self.refine(t.args[0], val, st)
        if self.own(t):
            if val:
                st.add('nonempty')
                st.drop('empty')
            else:
                st.drop('nonempty')
                st.s = frozenset(x | {'empty'} if 'L' in x else x for x in st.s)
            return None
        a = self_attr(t, self.me)
        if a == self.r.overflow:
            if val:
                st.add('ovf')
                st.drop('ovf_ok')
            else:
                st.add('ovf_ok')
                st.drop('ovf')
        elif a == self.r.exist:
            if not val:
                st.s = frozenset(x | {'nogen'} if 'L' in x else x for x in st.s)
        elif isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], (ast.Is, ast.IsNot)) and self_attr(t.left, self.me) == self.r.gen:
            none = isinstance(t.ops[0], ast.Is) == val
            if none:
                st.s = frozenset(x | {'nogen'} if 'L' in x else x for x in st.s)
        return None

    def on_return(self, s, st):
        if len(self.stack) > 0:
            return
        self.finish_state(s, st)

    def finish_state(self, s, st):
        for x in st.s:
            if 'ovf' in x:
                self.viol('overflow-first', 'end', s, 'an overflow ends the delivery without an error')


def inspects(fn, me, r):
    """does the function set the overflow flag after comparing the fill level of every inspected buffer with its own capacity"""
    for n in ast.walk(fn):
        if isinstance(n, ast.Assign) and any(self_attr(t, me) == r.overflow for t in n.targets) and isinstance(n.value, ast.Constant) and n.value.value is True:
            return True
    return False


def check_capacity(C, r, rep):
    """the fill level is compared with the capacity of that very buffer"""
    for f in C.all_methods().values():
        me = f.params[0] if f.params else 'self'
        if not inspects(f.node, me, r):
            continue
        rep.count('inspections')
        alias = {}
        for n in ast.walk(f.node):
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                alias[n.targets[0].id] = n.value
            if isinstance(n, ast.For) and isinstance(n.target, ast.Tuple) and len(n.target.elts) == 2 and self_attr(getattr(getattr(n.iter, 'func', None), 'value', None), me) == r.buffers:
                alias[n.target.elts[1].id] = ast.Subscript(ast.Attribute(ast.Name(me), r.buffers), n.target.elts[0])

        def expand(e, depth=0):
            if isinstance(e, ast.Name) and e.id in alias and depth < 3 and not isinstance(alias[e.id], ast.Constant):
                return expand(alias[e.id], depth + 1)
            return ast.unparse(e)

        for n in ast.walk(f.node):
            if isinstance(n, ast.Assign) and any(self_attr(t, me) == r.overflow for t in n.targets) and isinstance(n.value, ast.Constant) and n.value.value is True:
                tests = []
                p, c = getattr(n, '_parent', None), n
                while p is not None and p is not f.node:
                    if isinstance(p, ast.If):
                        pos = c in p.body
                        conj = p.test.values if isinstance(p.test, ast.BoolOp) and isinstance(p.test.op, ast.And) else [p.test]
                        tests += [(t, pos) for t in conj]
                    p, c = getattr(p, '_parent', None), p
                good = False
                for t, pos in tests:
                    if not (isinstance(t, ast.Compare) and len(t.ops) == 1):
                        continue
                    l, rr, op = t.left, t.comparators[0], type(t.ops[0])
                    if not pos:
                        op = {ast.Lt: ast.GtE, ast.NotEq: ast.Eq, ast.Gt: ast.LtE, ast.GtE: ast.Lt, ast.LtE: ast.Gt, ast.Eq: ast.NotEq}.get(op)
                    if isinstance(rr, ast.Call) or isinstance(rr, ast.Name) and isinstance(alias.get(rr.id), ast.Call):
                        l, rr = rr, l
                        op = {ast.Lt: ast.Gt, ast.LtE: ast.GtE, ast.Gt: ast.Lt, ast.GtE: ast.LtE}.get(op, op)
                    if isinstance(l, ast.Name) and l.id in alias:
                        l = alias[l.id]
                    if isinstance(rr, ast.Name) and rr.id in alias:
                        rr = alias[rr.id]
                    if isinstance(l, ast.Call) and dotted(l.func) == 'len' and l.args and isinstance(rr, ast.Attribute) and rr.attr == 'maxlen':
                        if expand(l.args[0]) == expand(rr.value) and op in (ast.Eq, ast.GtE):
                            good = True
                if not good:
                    rep.viol('overflow-first', f'{C.name}.{f.name}:capacity', 'the fill level of a buffer is not compared with the capacity of that buffer: '
                             'blocks are lost without an error', f'{C.module.rel}:{n.lineno} {C.name}.{f.name}')


def check_locked_iterators(prog, rep):
    """a class wrapping an iterator advances it only while its lock is held"""
    from .p10 import locked
    for C in prog.all_classes():
        f = C.methods.get('__next__')
        if f is None:
            continue
        locks = locks_of(C)
        me = f.params[0]
        for n in walk_no_nested(f.node):
            if isinstance(n, ast.Call) and (isinstance(n.func, ast.Name) and n.func.id == 'next' or isinstance(n.func, ast.Attribute) and n.func.attr in ('__next__', 'send')):
                if any(self_attr(k, me) for k in ast.walk(n) if isinstance(k, ast.Attribute)):
                    rep.count('locked_iterators')
                    if not locks or not locked(n, f.node, me, locks):
                        rep.viol('lock', f'{C.name}.__next__', 'the wrapped iterator is advanced without holding the lock', f'{C.module.rel}:{n.lineno} {C.name}.__next__')
        for n in walk_no_nested(f.node):
            if isinstance(n, ast.Call) and (dotted(n.func) or '').split('.')[-1] in ('Lock', 'RLock'):
                rep.viol('lock', f'{C.name}.__next__:new', 'the lock is created anew for every request', f'{C.module.rel}:{n.lineno} {C.name}.__next__')


def check(prog, rep):
    rep.rule('lock', 'the shared generator, buffers and flags are touched only while one lock is held')
    rep.rule('check-then-act', 'what is done under the lock is decided by a test made under the same lock')
    rep.rule('all-consumers', 'every block fetched is put into the buffer of every registered object')
    rep.rule('order', 'blocks are put in at one end of a buffer and taken out at the other')
    rep.rule('overflow-first', 'a full buffer is detected before a block is lost and ends every delivery with an error')
    rep.rule('fresh-run', 'a new run starts with empty buffers, and the end of the source makes the next request start a new run')
    rep.rule('registration', 'registering, removing and resizing act on every table and every registered object, and never replace a buffer in use')
    rep.rule('delivery', 'what is handed out is the block taken from the caller\'s own buffer')
    found = 0
    for C in prog.all_classes():
        if 'result' not in C.methods or C.find_trait('block_buffer') is None and not any('deque' in ast.unparse(f.node) for f in C.method_list):
            continue
        r = Roles(prog, C)
        if not r.ok:
            continue
        found += 1
        f = C.methods['result']
        run = Run(prog, C, r, rep, f'{C.name}.result')
        run.sides = set()
        run.me = f.params[0]
        out = run.run(f.node, St())
        if out.next is not None:
            run.finish_state(f.node, out.next)
        puts = {s for k, s, _ in run.sides if k == 'put'}
        takes = {s for k, s, _ in run.sides if k == 'take'}
        if len(puts) != 1 or len(takes) != 1 or puts == takes:
            rep.viol('order', f'{C.name}.result:sides', f'blocks are put in at {sorted(puts)} and taken out at {sorted(takes)} of the buffer: not first in, first out', f.where)
        check_end(prog, C, r, rep)
        check_capacity(C, r, rep)
        check_tables(C, r, rep)
        rep.count('splitters')
    check_locked_iterators(prog, rep)
    rep.floor('splitters', 1)
    for k, m in (('guarded_operations', 4), ('fetches', 1), ('distributions', 1), ('takes', 1), ('deliveries', 1), ('creations', 1), ('inspections', 1), ('locked_iterators', 1)):
        rep.floor(k, m)


def check_end(prog, C, r, rep):
    """the handler that sees the end of the source makes the next request start anew"""
    for f in C.all_methods().values():
        me = f.params[0] if f.params else 'self'
        for n in ast.walk(f.node):
            if isinstance(n, ast.ExceptHandler) and n.type is not None and 'StopIteration' in ast.unparse(n.type):
                rep.count('ends')
                reset = any(isinstance(k, ast.Assign) and any(self_attr(t, me) == r.exist for t in k.targets) and isinstance(k.value, ast.Constant) and not k.value.value
                            for b in n.body for k in ast.walk(b))
                if not reset and not any(isinstance(k, ast.Call) and self_attr(k.func, me) for b in n.body for k in ast.walk(b)):
                    rep.viol('fresh-run', f'{C.name}.{f.name}:end', 'the end of the source leaves the exhausted generator marked as existing: no run can follow',
                             f'{C.module.rel}:{n.lineno} {C.name}.{f.name}')


def table_ops(C, r, f, depth=0, seen=()):
    """tables of the object that the function fills or empties by key, with the statements that do so (helpers followed): [(op, table, node)]"""
    out = []
    if f.name in seen or depth > 4:
        return out
    me = f.params[0] if f.params else 'self'
    for n in walk_no_nested(f.node):
        if isinstance(n, ast.Assign):
            for t in n.targets:
                if isinstance(t, ast.Subscript) and self_attr(t.value, me):
                    out.append(('fill', t.value.attr, n))
        elif isinstance(n, ast.Delete):
            for t in n.targets:
                if isinstance(t, ast.Subscript) and self_attr(t.value, me):
                    out.append(('empty', t.value.attr, n))
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute):
            a = self_attr(n.func.value, me)
            if a and n.func.attr in ('pop', 'popitem', 'clear', '__delitem__'):
                out.append(('empty', a, n))
            elif a and n.func.attr in ('update', 'setdefault', '__setitem__'):
                out.append(('fill', a, n))
            elif isinstance(n.func.value, ast.Name) and n.func.value.id == me:
                g = C.find_method(n.func.attr)
                if g is not None and g is not f:
                    out += [(op, t, n) for op, t, _ in table_ops(C, r, g, depth + 1, (*seen, f.name))]
    return out


def suites_up(node, top):
    """(suite, index of the statement that holds the node) from the innermost suite outwards"""
    p, c = getattr(node, '_parent', None), node
    while c is not top and p is not None:
        for field in ('body', 'orelse', 'finalbody', 'handlers'):
            L = getattr(p, field, None)
            if isinstance(L, list) and any(x is c for x in L):
                yield L, [i for i, x in enumerate(L) if x is c][0], p
        p, c = getattr(p, '_parent', None), p


def check_tables(C, r, rep):
    methods = {f.name: f for f in C.all_methods().values()}
    where = lambda f, n: f'{C.module.rel}:{getattr(n, "lineno", 0)} {C.name}.{f.name}'
    ops = {f.name: table_ops(C, r, f) for f in methods.values()}
    public = [f for f in methods.values() if not f.name.startswith('_') and f.name != 'result']
    registering = [f for f in public if any(o == 'fill' and t == r.buffers for o, t, _ in ops[f.name])]
    tables = {t for f in registering for o, t, _ in ops[f.name] if o == 'fill'}

    def member_test(t, me):
        return any(isinstance(k, ast.Compare) and any(isinstance(o, (ast.In, ast.NotIn)) for o in k.ops) and
                   any(self_attr(x, me) in tables for c in k.comparators for x in ast.walk(c) if isinstance(x, ast.Attribute)) for k in ast.walk(t))

    for f in registering:
        me = f.params[0]
        for o, t, n in ops[f.name]:
            if o != 'fill' or t != r.buffers:
                continue
            rep.count('registrations')
            guarded = False
            for L, i, p in suites_up(n, f.node):
                if isinstance(p, ast.If) and member_test(p.test, me):
                    guarded = True
                for x in L[:i]:
                    if isinstance(x, ast.If) and member_test(x.test, me) and any(isinstance(k, (ast.Raise, ast.Continue)) for k in ast.walk(x)):
                        guarded = True
                    for k in ast.walk(x):
                        if isinstance(k, ast.Call) and self_attr(k.func, me):
                            g = C.find_method(k.func.attr)
                            if g is not None and member_test(g.node, g.params[0]) and any(isinstance(z, ast.Raise) for z in ast.walk(g.node)):
                                guarded = True
                        if isinstance(k, ast.If) and member_test(k.test, me) and any(isinstance(z, ast.Raise) for z in ast.walk(k)):
                            guarded = True
            if not guarded:
                rep.viol('registration', f'{C.name}.{f.name}:again', 'registering an object that is already registered replaces its buffer: blocks waiting there are lost', where(f, n))
    for f in public:
        mine = ops[f.name]
        for o, t, n in mine:
            if o != 'empty' or t != r.buffers:
                continue
            rep.count('removals')
            for other in sorted(tables - {r.buffers}):
                good = any(o2 == 'empty' and t2 == other and any(x is n2 or any(k is n2 for k in ast.walk(x)) for L, i, p in suites_up(n, f.node) for x in L[:i] + L[i:i + 1] * (
                    not isinstance(L[i], (ast.If, ast.Try))) + L[i + 1:]) for o2, t2, n2 in mine)
                if not good:
                    rep.viol('registration', f'{C.name}.{f.name}:{other}', f'a removed object stays in the table {other}: the next run looks for a buffer it no longer has', where(f, n))
    # what is done for every object is done for all of them
    for f in methods.values():
        me = f.params[0] if f.params else 'self'
        single = {}
        for n in walk_no_nested(f.node):
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                single.setdefault(n.targets[0].id, []).append(n.value)
        iters = [(n.iter, n) for n in walk_no_nested(f.node) if isinstance(n, (ast.For, ast.comprehension))]
        for it, n in iters:
            if isinstance(n, ast.For):
                over = it.func.value if isinstance(it, ast.Call) and isinstance(it.func, ast.Attribute) and it.func.attr in ('keys', 'items', 'values') and not it.args else it
                over = self_attr(over, me) or (self_attr(single[over.id][0], me) if isinstance(over, ast.Name) and len(single.get(over.id, ())) == 1 else None)
                if over and any(t == over and o == 'empty' and any(k is x for b in n.body for k in ast.walk(b)) for o, t, x in ops[f.name]):
                    rep.viol('registration', f'{C.name}.{f.name}:changed', f'{over} is changed while its entries are visited', where(f, it))
            e = it
            if isinstance(e, ast.Name) and len(single.get(e.id, ())) == 1:
                e = single[e.id][0]
            while isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ('list', 'tuple', 'sorted', 'reversed') and e.args:
                e = e.args[0]
            if isinstance(e, ast.Subscript) and isinstance(e.slice, ast.Slice) and (e.slice.lower is not None or e.slice.upper is not None) or \
                    isinstance(e, ast.Call) and (dotted(e.func) or '').split('.')[-1] == 'islice':
                if any(isinstance(k, ast.Attribute) and self_attr(k, me) in tables | {r.buffers} for k in ast.walk(e)):
                    rep.viol('registration', f'{C.name}.{f.name}:part', 'only a part of the registered objects is treated', where(f, it))
    # which buffers are watched for an overflow
    treat = set()
    for f in methods.values():
        me = f.params[0] if f.params else 'self'
        for n in walk_no_nested(f.node):
            if isinstance(n, ast.Compare):
                for k in ast.walk(n.left):
                    if isinstance(k, ast.Subscript) and self_attr(k.value, me) and any(isinstance(c, ast.Constant) and isinstance(c.value, str) for x in n.comparators for c in ast.walk(x)):
                        treat.add(k.value.attr)
    for f in methods.values():
        me = f.params[0] if f.params else 'self'
        if inspects(f.node, me, r):
            for g in methods.values():
                for n in walk_no_nested(g.node):
                    if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == f.name and n.args:
                        a = n.args[0]
                        loc = {}
                        for k in walk_no_nested(g.node):
                            if isinstance(k, ast.Assign) and len(k.targets) == 1 and isinstance(k.targets[0], ast.Name):
                                loc.setdefault(k.targets[0].id, []).append(k.value)
                        if isinstance(a, ast.Name) and len(loc.get(a.id, ())) == 1:
                            a = loc[a.id][0]
                        rep.count('watched')
                        if isinstance(a, (ast.List, ast.Tuple, ast.Set)):
                            rep.viol('overflow-first', f'{C.name}.{g.name}:watched', 'only some of the buffers are tested before a block is put into all of them', where(g, n))
        for n in walk_no_nested(f.node):
            if isinstance(n, ast.comprehension) and n.ifs and any(isinstance(k, ast.Attribute) and self_attr(k, me) in treat for x in [n.iter, *n.ifs] for k in ast.walk(x)):
                for c in n.ifs:
                    if not watched_all(c, treat, me):
                        rep.viol('overflow-first', f'{C.name}.{f.name}:watched', 'a buffer whose overflow has to be reported is not among the watched ones', where(f, c))
    # size of a buffer
    for f in methods.values():
        me = f.params[0] if f.params else 'self'
        for n in walk_no_nested(f.node):
            if isinstance(n, ast.Call) and (dotted(n.func) or '').split('.')[-1] == 'deque':
                m = [k.value for k in n.keywords if k.arg == 'maxlen'] + n.args[1:2]
                if not m:
                    continue
                rep.count('sizes')
                used, todo = set(), [m[0]]
                seen = set()
                while todo:
                    e = todo.pop()
                    for k in ast.walk(e):
                        if isinstance(k, ast.Name) and k.id not in seen:
                            seen.add(k.id)
                            used.add(k.id)
                            for x in walk_no_nested(f.node):
                                if isinstance(x, ast.Assign) and any(isinstance(t, ast.Name) and t.id == k.id for t in x.targets):
                                    todo.append(x.value)
                                    p = getattr(x, '_parent', None)
                                    while p is not None and p is not f.node:
                                        if isinstance(p, ast.If):
                                            todo.append(p.test)
                                        p = getattr(p, '_parent', None)
                keys = {k.id for x in walk_no_nested(f.node) if isinstance(x, ast.Subscript) for k in ast.walk(x.slice) if isinstance(k, ast.Name)}
                for p in f.params[1:]:
                    if p not in used and p not in keys:
                        rep.viol('registration', f'{C.name}.{f.name}:{p}', f'the size {p} asked for is not the size of the buffer', where(f, n))


def watched_all(c, treat, me):
    """the condition excludes objects only because overflows are to be ignored for them"""
    if isinstance(c, ast.BoolOp):
        return isinstance(c.op, ast.Or) and any(watched_all(v, treat, me) for v in c.values) or all(watched_all(v, treat, me) for v in c.values)
    neg = False
    while isinstance(c, ast.UnaryOp) and isinstance(c.op, ast.Not):
        c, neg = c.operand, not neg
    if not (isinstance(c, ast.Compare) and len(c.ops) == 1):
        return True
    strings = {k.value for x in [c.left, *c.comparators] for k in ast.walk(x) if isinstance(k, ast.Constant) and isinstance(k.value, str)}
    if not strings:
        return True
    op = type(c.ops[0])
    if neg:
        op = {ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.In: ast.NotIn, ast.NotIn: ast.In}.get(op, op)
    if op in (ast.NotEq, ast.NotIn):
        return strings <= {'none'}
    return strings >= {'error', 'warning'}
