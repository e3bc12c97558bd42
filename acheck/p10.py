"""P10: the registry of cache files.

The request for a cache file is followed along all paths, for every situation it can find: what the object holds, whether
the file is open already, whether it exists, and whether the policy allows writing.  The state at the end is compared with
the one the situation calls for.  Every change of the shared tables happens with the lock held.
"""

import ast

from .model import dotted, walk_no_nested

UNK = ('?',)


class GiveUp(Exception):
    pass


class Exec:
    """all paths of a function for one situation; state is a dict"""

    def __init__(self, cls, sit):
        self.cls, self.sit, self.steps = cls, sit, 0

    # values
    def ev(self, e, st):
        if isinstance(e, ast.Constant):
            return ('c', e.value)
        if isinstance(e, ast.Name):
            return st['env'].get(e.id, UNK)
        if isinstance(e, ast.Attribute):
            d = dotted(e)
            if d and d.endswith('global_caching'):
                return ('policy',)
            b = self.ev(e.value, st)
            if b == ('obj',) and e.attr == 'h5f':
                return st['h5f']
            if b == ('self',):
                if e.attr in ('open_files', 'open_file_reference', '_lock', 'busy', 'cache_dir'):
                    return ('self', e.attr)
                return ('meth', e.attr) if self.cls.find_method(e.attr) else UNK
            if b[0] == 'file' and e.attr == 'filename':
                return ('path', b[1])
            return ('of', b, e.attr)
        if isinstance(e, ast.Call):
            return self.callval(e, st)
        if isinstance(e, ast.Subscript):
            b, i = self.ev(e.value, st), self.ev(e.slice, st)
            if b == ('self', 'open_files'):
                if i == ('path', 'new') and (self.sit['open'] or 'new' in st['registered']):
                    return ('file', 'new')
                if i[0] == 'path' and i[1] == 'old':
                    return ('file', 'old')
                return ('error', 'KeyError')
            if b == ('self', 'open_file_reference'):
                return ('count', i)
            return UNK
        if isinstance(e, ast.BinOp):
            a, b = self.ev(e.left, st), self.ev(e.right, st)
            if a == ('self', 'cache_dir') or a == ('dir',) or (a[0] == 'of' and a[-1] == 'cache_dir'):
                return ('path', 'new')
            if b == ('self', 'cache_dir'):
                return ('dir',)
            if a[0] in ('count', 'count+') and b[0] == 'c' and isinstance(b[1], int) and isinstance(e.op, (ast.Add, ast.Sub)):
                return ('count+', a[1], (a[2] if a[0] == 'count+' else 0) + (b[1] if isinstance(e.op, ast.Add) else -b[1]))
            if b[0] == 'count' and a[0] == 'c' and isinstance(a[1], int) and isinstance(e.op, ast.Add):
                return ('count+', b[1], a[1])
            return UNK
        if isinstance(e, ast.IfExp):
            t = self.test(e.test, st)
            if t is None:
                return UNK
            return self.ev(e.body if t else e.orelse, st)
        if isinstance(e, ast.NamedExpr):
            v = self.ev(e.value, st)
            st['env'] = {**st['env'], e.target.id: v}
            return v
        if isinstance(e, (ast.Compare, ast.BoolOp, ast.UnaryOp)):
            t = self.test(e, st)
            return UNK if t is None else ('c', t)
        if isinstance(e, (ast.ListComp, ast.GeneratorExp, ast.SetComp)):
            sel = self.selected(e, st)
            if sel is not None and isinstance(e.elt, ast.Name) and e.elt.id == e.generators[0].target.id:
                return ('list', tuple(el for el, _ in sel))
            return UNK
        return UNK

    def callval(self, e, st):
        f = e.func
        name = dotted(f) or ''
        last = name.split('.')[-1] or (f.attr if isinstance(f, ast.Attribute) else '')
        if last == '_get_cachefile_class':
            return ('filecls',)
        if isinstance(f, ast.Attribute):
            b = self.ev(f.value, st)
            if f.attr in ('resolve', 'absolute', 'expanduser') and b[0] in ('path', 'dir'):
                return b
            if f.attr == 'exists' and b == ('path', 'new'):
                return ('c', self.sit['exists'])
            if f.attr in ('exists', 'is_file') and b[0] == 'path':
                return ('c', self.sit['exists'] if b[1] == 'new' else True)
            if f.attr == 'is_file' and b == ('path', 'new'):
                return ('c', self.sit['exists'])
            if f.attr == 'joinpath' and b in (('self', 'cache_dir'), ('dir',)):
                return ('path', 'new')
            if f.attr in ('get', 'setdefault', 'pop') and b == ('self', 'open_file_reference') and e.args:
                i = self.ev(e.args[0], st)
                d = self.ev(e.args[1], st) if len(e.args) > 1 else None
                if i == ('path', 'new') and d is not None and d[0] == 'c' and isinstance(d[1], int) and not self.sit['open'] and 'new' not in st['counts']:
                    # the file is not known yet: the default
                    if f.attr == 'setdefault':
                        st['counts'] = {**st['counts'], 'new': d[1]}
                        return ('count', i)
                    if f.attr == 'get':
                        return ('count+', i, d[1])
                if f.attr != 'pop':
                    return ('count', i)
            if f.attr == 'get' and b == ('self', 'open_files') and e.args:
                i = self.ev(e.args[0], st)
                if i == ('path', 'new'):
                    return ('file', 'new') if self.sit['open'] or 'new' in st['registered'] else ('c', None)
        if last in ('any', 'all') and len(e.args) == 1 and isinstance(e.args[0], (ast.GeneratorExp, ast.ListComp)):
            sel = self.selected(e.args[0], st)
            ts = [self.test(e.args[0].elt, x) for _, x in sel] if sel is not None else [None]
            want = last == 'any'
            if want in ts:
                return ('c', want)
            return UNK if None in ts else ('c', not want)
        if last in ('list', 'tuple', 'set') and len(e.args) == 1 and self.ev(e.args[0], st)[0] == 'list':
            return self.ev(e.args[0], st)
        if last == 'Path' and e.args:
            a = self.ev(e.args[0], st)
            return ('dir',) if a == ('self', 'cache_dir') else a
        if last == 'getattr' and len(e.args) >= 2 and isinstance(e.args[1], ast.Constant) and self.ev(e.args[0], st) == ('obj',) and e.args[1].value == 'h5f':
            return st['h5f']
        if last == 'join' and e.args and self.ev(e.args[0], st) == ('self', 'cache_dir'):
            return ('path', 'new')
        if self.ev(f, st) == ('filecls',):
            return ('open', e)
        return UNK

    # tests: True / False / None
    def test(self, t, st):
        if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            v = self.test(t.operand, st)
            return None if v is None else not v
        if isinstance(t, ast.BoolOp):
            vs = []
            for x in t.values:
                v = self.test(x, st)
                if v is (isinstance(t.op, ast.Or)):
                    return v
                vs.append(v)
            return None if None in vs else isinstance(t.op, ast.And)
        if isinstance(t, ast.Call):
            last = (dotted(t.func) or '').split('.')[-1]
            if last == 'isinstance' and len(t.args) == 2:
                v = self.ev(t.args[0], st)
                if v[0] == 'file' or v == ('c', None):
                    if v == ('c', None):
                        return False
                    k = self.ev(t.args[1], st)
                    if k == ('filecls',):
                        return not (self.sit['foreign'] and v == st['h5f'])
                    return True
            v = self.callval(t, st)
            if v[0] == 'c':
                return bool(v[1])
            return True if v[0] == 'file' else None
        if isinstance(t, ast.Compare) and len(t.ops) == 1:
            op = t.ops[0]
            a, b = self.ev(t.left, st), self.ev(t.comparators[0], st)
            pos = isinstance(op, (ast.Eq, ast.Is, ast.In))
            if isinstance(op, (ast.In, ast.NotIn)):
                if b == ('self', 'open_files') and a == ('path', 'new'):
                    return (self.sit['open'] or 'new' in st['registered']) == pos
                if b == ('self', 'open_file_reference') and a[0] == 'path':
                    return (a[1] != 'new' or self.sit['open'] or a[1] in st['counts']) == pos
                if a == ('policy',) and isinstance(t.comparators[0], (ast.Tuple, ast.List, ast.Set)):
                    return (self.sit['policy'] in [x.value for x in t.comparators[0].elts if isinstance(x, ast.Constant)]) == pos
                return None
            if isinstance(op, (ast.Eq, ast.NotEq, ast.Is, ast.IsNot)):
                if ('policy',) in (a, b):
                    o = b if a == ('policy',) else a
                    return (o == ('c', self.sit['policy'])) == pos if o[0] == 'c' else None
                if a[0] == b[0] == 'path':
                    return (a[1] == b[1]) == pos
                if ('c', None) in (a, b):
                    o = b if a == ('c', None) else a
                    if o[0] in ('file', 'c', 'open'):
                        return (o == ('c', None)) == pos
                if a[0] == b[0] == 'file':
                    return (a == b) == pos
                if a[0] == b[0] == 'c':
                    return (a[1] == b[1]) == pos
                if a[0] == b[0] == 'of' and a[-1] == b[-1]:
                    return None
            return None
        v = self.ev(t, st)
        if v[0] == 'c':
            return bool(v[1])
        if v[0] in ('file', 'open'):
            return True
        return None

    # statements
    def block(self, body, sts):
        live, out = list(sts), []
        for s in body:
            nxt = []
            for st in live:
                for k, x in self.stmt(s, st):
                    (nxt if k == 'next' else out).append(x if k == 'next' else (k, x))
            live = nxt
        return [('next', s) for s in live] + out

    def effects(self, e, st):
        """state changes of calls inside e -> list of states"""
        sts = [st]
        calls = [n for n in ast.walk(e) if isinstance(n, ast.Call)]
        calls.sort(key=lambda n: (n.end_lineno, n.end_col_offset))
        for n in calls:
            nxt = []
            for s in sts:
                v = self.ev(n.func, s)
                if v[0] == 'meth':
                    nxt += self.inline(v[1], n, s)
                    continue
                s = dict(s)
                if v == ('filecls',):
                    if not self.guarded(n):
                        s['failed'] = s['failed'] + ((s['h5f'], tuple(sorted(s['counts'].items(), key=str))),)
                    s['opened'] = s['opened'] + 1
                    mode = None
                    args = list(n.args)
                    if len(args) > 1:
                        mode = self.ev(args[1], s)
                    for k in n.keywords:
                        if k.arg == 'mode':
                            mode = self.ev(k.value, s)
                    s['mode'] = mode
                    s['openpath'] = self.ev(args[0], s) if args else UNK
                elif isinstance(n.func, ast.Attribute) and n.func.attr == 'close' and self.ev(n.func.value, s)[0] in ('file', 'elem'):
                    s['closed'] = s['closed'] + 1
                elif isinstance(n.func, ast.Attribute) and n.func.attr == 'pop' and self.ev(n.func.value, s) == ('self', 'open_file_reference'):
                    s['popped'] = s['popped'] + 1
                nxt.append(s)
            sts = nxt
        return sts

    @staticmethod
    def guarded(n):
        while n is not None:
            n = getattr(n, '_parent', None)
            if isinstance(n, ast.Try) and n.handlers:
                return True
        return False

    def inline(self, name, call, st):
        m = self.cls.find_method(name)
        if m is None or st['depth'] > 5:
            raise GiveUp(name)
        if name in self.sit.get('opaque', ()):
            s = dict(st)
            s['called'] = s['called'] | {name}
            return [s]
        names = [a.arg for a in m.node.args.args]
        defaults = m.node.args.defaults
        env = {names[0]: ('self',)}
        for a, d in zip(names[len(names) - len(defaults):], defaults):
            env[a] = self.ev(d, st)
        for a, x in zip(names[1:], call.args):
            env[a] = self.ev(x, st)
        for k in call.keywords:
            env[k.arg] = self.ev(k.value, st)
        s = dict(st)
        save, d = s['env'], s['depth']
        s['env'], s['depth'] = env, d + 1
        s['called'] = s['called'] | {name}
        out = []
        for k, r in self.block(m.node.body, [s]):
            if k == 'raise':
                continue
            r = dict(r)
            r['env'], r['depth'] = save, d
            out.append(r)
        return out

    def store(self, t, v, st):
        if isinstance(t, ast.Name):
            st['env'] = {**st['env'], t.id: v}
        elif isinstance(t, ast.Attribute):
            b = self.ev(t.value, st)
            if b == ('obj',) and t.attr == 'h5f':
                st['h5f'] = ('file', 'new') if v[0] == 'open' else v
                st['assigned'] = st['assigned'] + 1
        elif isinstance(t, ast.Subscript):
            b, i = self.ev(t.value, st), self.ev(t.slice, st)
            if b == ('self', 'open_files'):
                if v[0] == 'open' or (v[0] == 'file' and v[1] == 'new'):
                    st['registered'] = st['registered'] | {i[1] if i[0] == 'path' else '?'}
            elif b == ('self', 'open_file_reference'):
                k = i[1] if i[0] == 'path' else '?'
                known = st['counts'].get(k, 0)
                if v[0] == 'count+' and v[1] == i:
                    st['counts'] = {**st['counts'], k: None if known is None else known + v[2]}
                elif v == ('c', 0) and k == 'new' and not self.sit['open'] and known == 0:
                    st['counts'] = {**st['counts'], k: 0}
                elif v == ('c', 1) and not self.sit['open']:
                    st['counts'] = {**st['counts'], k: st['counts'].get(k, 0) + 1}
                else:
                    st['counts'] = {**st['counts'], k: None}

    def stmt(self, s, st):
        self.steps += 1
        if self.steps > 20000:
            raise GiveUp('steps')
        if isinstance(s, ast.Expr):
            return [('next', x) for x in self.effects(s.value, st)]
        if isinstance(s, (ast.Assign, ast.AnnAssign)):
            if s.value is None:
                return [('next', st)]
            out = []
            for x in self.effects(s.value, st):
                x = dict(x)
                v = self.ev(s.value, x)
                if v[0] == 'open':
                    v = ('file', 'new')
                for t in (s.targets if isinstance(s, ast.Assign) else [s.target]):
                    self.store(t, v, x)
                out.append(('next', x))
            return out
        if isinstance(s, ast.AugAssign):
            x = dict(st)
            if isinstance(s.target, ast.Subscript) and self.ev(s.target.value, x) == ('self', 'open_file_reference'):
                i = self.ev(s.target.slice, x)
                self.store(s.target, ('count+', i, 1 if isinstance(s.op, ast.Add) else -1), x)
            return [('next', x)]
        if isinstance(s, ast.Return):
            sts = self.effects(s.value, st) if s.value is not None else [st]
            out = []
            for x in sts:
                x = dict(x)
                v = self.ev(s.value, x) if s.value is not None else ('c', None)
                x['ret'] = v
                out.append(('return', x))
            return out
        if isinstance(s, ast.Raise):
            return [('raise', st)]
        if isinstance(s, ast.If):
            v = self.test(s.test, st)
            out = []
            for x in self.effects(s.test, st) if any(isinstance(n, ast.Call) and self.ev(n.func, st)[0] == 'meth' for n in ast.walk(s.test)) else [st]:
                if v is None and self.sit.get('oracle'):
                    vv = self.sit['oracle'](self, s.test, x)
                else:
                    vv = v
                if vv is not False:
                    out += self.block(s.body, [dict(x)])
                if vv is not True:
                    out += self.block(s.orelse, [dict(x)])
            return out
        if isinstance(s, ast.With):
            return self.block(s.body, [st])
        if isinstance(s, ast.Try):
            res = self.block(s.body, [st])
            out = []
            for k, x in res:
                if k == 'next' and s.orelse:
                    out += self.block(s.orelse, [x])
                else:
                    out.append((k, x))
            if s.finalbody:
                fin = []
                for k, x in out:
                    for k2, y in self.block(s.finalbody, [x]):
                        fin.append((k if k2 == 'next' else k2, y))
                out = fin
            return out
        if isinstance(s, (ast.Pass, ast.Import, ast.ImportFrom, ast.Global, ast.Assert)):
            return [('next', st)]
        if isinstance(s, ast.For):
            return self.loop(s, st)
        if isinstance(s, ast.Break):
            return [('break', st)]
        if isinstance(s, ast.Continue):
            return [('continue', st)]
        if isinstance(s, ast.Delete):
            return [('next', st)]
        raise GiveUp(type(s).__name__)

    def elements(self, e, st):
        v = self.ev(e, st)
        return list(v[1]) if v[0] == 'list' and len(v) > 1 else self.sit.get('elements', [('elem',)])

    def selected(self, e, st):
        """the elements a comprehension keeps, or None"""
        if len(e.generators) != 1 or not isinstance(e.generators[0].target, ast.Name):
            return None
        g, out = e.generators[0], []
        for el in self.elements(g.iter, st):
            x = dict(st)
            x['env'] = {**st['env'], g.target.id: el}
            ts = [self.test(c, x) for c in g.ifs]
            if False in ts:
                continue
            if None in ts:
                return None
            out.append((el, x))
        return out

    def loop(self, s, st):
        """elements of the situation, once each"""
        live, out = [st], []
        for el in self.elements(s.iter, st):
            nxt = []
            for x in live:
                x = dict(x)
                if isinstance(s.target, ast.Name):
                    x['env'] = {**x['env'], s.target.id: el}
                for k, y in self.block(s.body, [x]):
                    if k in ('next', 'continue'):
                        nxt.append(y)
                    elif k == 'break':
                        out.append(('next', y))
                    else:
                        out.append((k, y))
            live = nxt
        for x in live:
            out += self.block(s.orelse, [x]) if s.orelse else [('next', x)]
        return out


def start(env):
    return {'env': env, 'h5f': ('c', None), 'registered': frozenset(), 'counts': {}, 'opened': 0, 'closed': 0, 'popped': 0, 'assigned': 0, 'mode': None,
            'openpath': None, 'called': frozenset(), 'depth': 0, 'ret': None, 'failed': ()}


def situations():
    for policy in ('all', 'readonly', 'overwrite'):
        for held in ('none', 'same', 'other', 'foreign'):
            for isopen in (True, False):
                if held == 'same' and not isopen:
                    continue
                for exists in (True, False):
                    if isopen and not exists:
                        continue
                    yield {'policy': policy, 'held': held, 'open': isopen, 'exists': exists, 'foreign': held == 'foreign',
                           'opaque': ('close_unreferenced_cachefiles', '_print_open_files')}


def check_request(prog, rep):
    rep.rule('request', 'after a request the object holds the one open handle of its file, opened at most once and registered, and the number of users of both files is right')
    cls = prog.classes.get('HDF5Cache')
    m = cls.find_method('get_cache_file') if cls else None
    if m is None:
        return
    names = [a.arg for a in m.node.args.args]
    opens_somewhere = False
    for sit in situations():
        ex = Exec(cls, sit)
        st = start({names[0]: ('self',), names[1]: ('obj',), names[2]: ('basename',), **{a: ex.ev(d, {'env': {}}) for a, d in zip(names[len(names) - len(m.node.args.defaults):], m.node.args.defaults)}})
        st['h5f'] = {'none': ('c', None), 'same': ('file', 'new')}.get(sit['held'], ('file', 'old'))
        try:
            ends = ex.block(m.node.body, [st])
        except GiveUp as e:
            rep.count('given_up')
            rep.notes.append(f'request {sit}: not followed ({e})')
            continue
        rep.count('situations')
        what = f'policy {sit["policy"]}, object holds {dict(none="no file", same="this file", other="another file", foreign="a file of the other library")[sit["held"]]}, ' \
               f'file {"open" if sit["open"] else "not open"}, {"exists" if sit["exists"] else "does not exist"}'
        for k, s in ends:
            rep.count('paths')
            if k == 'raise':
                continue
            where = f'{m.module.rel}:{m.node.lineno} HDF5Cache.get_cache_file'

            def bad(key, msg):
                rep.viol('request', key, f'{msg} ({what})', where)
            for h5f, counts in s['failed']:
                f = dict(counts)
                if any(v is None for v in f.values()) or '?' in f:
                    continue
                holds_old = h5f == ('file', 'old')
                want = {'old': -1 if sit['held'] in ('other', 'foreign') and not holds_old else 0, 'new': 0}
                rep.count('failed_opens')
                if {k: f.get(k, 0) for k in want} != want:
                    bad('count-failed', f'when the file cannot be opened the number of users of the file held before has changed by {f.get("old", 0)} '
                                        f'and that of the file requested by {f.get("new", 0)}, although the object {"still" if holds_old else "no longer"} holds the former')
            c = s['counts']
            if any(v is None for v in c.values()) or '?' in c:
                rep.count('undecided')
                continue
            held_old = sit['held'] in ('other', 'foreign')
            if sit['policy'] == 'readonly' and not sit['exists']:
                if s['opened']:
                    bad('readonly-open', 'a file that does not exist is opened')
                if s['h5f'] != ('c', None):
                    bad('readonly-held', 'the object keeps a handle although there is no file to read')
                if (c.get('old', 0), c.get('new', 0)) != (-1 if held_old else 0, 0) and sit['held'] != 'same':
                    bad('count', f'number of users changes by {c.get("new", 0)} for the file requested and {c.get("old", 0)} for the file held before')
                continue
            if sit['held'] == 'same':
                if s['h5f'] != ('file', 'new'):
                    bad('lost', 'the object loses its file')
                if sum(c.values()) or s['opened']:
                    bad('same', 'a request for the file the object already holds counts or opens it once more')
                continue
            if s['h5f'] != ('file', 'new'):
                bad('handle', 'the object does not get the handle of the file it asked for')
            if s['opened'] != (0 if sit['open'] else 1):
                bad('open', f'the file is opened {s["opened"]} times')
            if s['opened']:
                opens_somewhere = True
                if 'new' not in s['registered']:
                    bad('register', 'a newly opened file is not registered, so the next object opens it again')
                if s['openpath'] not in (('path', 'new'), UNK):
                    bad('path', 'a file other than the one asked for is opened')
                if sit['policy'] == 'readonly' and s['mode'] != ('c', 'r') and s['mode'] != UNK:
                    bad('mode', 'the file is opened for writing')
                if sit['policy'] != 'readonly' and s['mode'] != UNK and s['mode'] not in (('c', 'a'), ('c', 'r+')):
                    bad('mode', f'the file is opened with mode {s["mode"]}, losing what is stored or not allowing to store')
            if (c.get('new', 0), c.get('old', 0)) != (1, -1 if held_old else 0):
                bad('count', f'number of users changes by {c.get("new", 0)} for the file requested and {c.get("old", 0)} for the file held before')
            if 'close_unreferenced_cachefiles' not in s['called']:
                bad('collect', 'files nobody uses any more are not closed')
    rep.floor('situations', 12)


def check_close(prog, rep):
    rep.rule('close-unused', 'a file is closed exactly when no object refers to it, and its count is removed')
    cls = prog.classes.get('HDF5Cache')
    m = cls.find_method('close_unreferenced_cachefiles') if cls else None
    r = cls.find_method('is_reference_existent') if cls else None
    if m is None or r is None:
        return

    def collect(s):
        """calls of is_reference_existent answered by the situation"""
        return s

    for used in (True, False):
        class E(Exec):
            def callval(self, e, st, used=used):
                if (dotted(e.func) or '').endswith('.is_reference_existent'):
                    return ('c', used)
                return super().callval(e, st)
        ex = E(cls, {'policy': 'all', 'open': True, 'exists': True, 'foreign': False, 'opaque': ('get_open_cachefiles', 'is_reference_existent'), 'elements': [('elem',)]})
        try:
            ends = ex.block(m.node.body, [start({'self': ('self',), m.node.args.args[0].arg: ('self',)})])
        except GiveUp as e:
            rep.notes.append(f'close: not followed ({e})')
            continue
        rep.count('situations')
        for k, s in ends:
            if k == 'raise':
                continue
            if used and s['closed']:
                rep.viol('close-unused', 'used', 'a cache file that is still in use is closed', f'{m.module.rel}:{m.node.lineno} HDF5Cache.{m.name}')
            if not used and not s['closed']:
                rep.viol('close-unused', 'unused', 'a cache file nobody uses is not closed', f'{m.module.rel}:{m.node.lineno} HDF5Cache.{m.name}')
    # what counts as a reference: an attribute dictionary with a handle in it
    for kinds, expected in (([('ref',)], True), ([('plain',)], False), ([], False), ([('ref',), ('plain',)], True), ([('plain',), ('ref',)], True), ([('list',)], False)):
        class R(Exec):
            def test(self, t, st):
                if isinstance(t, ast.Call) and (dotted(t.func) or '') == 'isinstance':
                    v = self.ev(t.args[0], st)
                    if v in (('ref',), ('plain',), ('list',)):
                        return v != ('list',)
                if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], (ast.In, ast.NotIn)) and isinstance(t.left, ast.Constant):
                    v = self.ev(t.comparators[0], st)
                    if v in (('ref',), ('plain',), ('list',)):
                        return ((v == ('ref',)) and t.left.value == 'h5f') == isinstance(t.ops[0], ast.In)
                return super().test(t, st)
        ex = R(cls, {'policy': 'all', 'open': True, 'exists': True, 'foreign': False, 'elements': kinds})
        names = [a.arg for a in r.node.args.args]
        try:
            ends = ex.block(r.node.body, [start({names[0]: ('self',), names[1]: ('file', 'new')})])
        except GiveUp as e:
            rep.notes.append(f'references: not followed ({e})')
            continue
        rep.count('situations')
        for k, s in ends:
            if k == 'return' and s['ret'][0] == 'c' and bool(s['ret'][1]) != expected:
                rep.viol('close-unused', 'reference', f'a file {"that an object holds counts as unused" if expected else "no object holds counts as used"}',
                         f'{r.module.rel}:{r.node.lineno} HDF5Cache.{r.name}')


GUARDED = {'HDF5Cache': ({'open_files', 'open_file_reference'}, {'h5f'}), }
MUTATE = {'pop', 'append', 'appendleft', 'popleft', 'clear', 'update', 'setdefault', 'popitem', 'remove', 'extend', 'insert'}


def locks_of(cls):
    """attributes that hold a lock"""
    out = set()
    for C in cls.mro():
        for f in C.methods.values():
            for n in walk_no_nested(f.node):
                if isinstance(n, ast.Call) and (dotted(n.func) or '').split('.')[-1] in ('Lock', 'RLock', 'Condition', 'Semaphore'):
                    if f.name.startswith('_') and f.name.endswith('_default'):
                        out.add(f.name[1:-len('_default')])
                    p = getattr(n, '_parent', None)
                    if isinstance(p, ast.Assign):
                        for t in p.targets:
                            if isinstance(t, ast.Attribute):
                                out.add(t.attr)
        for name, t in C.attrs.items():
            if any((dotted(x.func) or '').split('.')[-1] in ('Lock', 'RLock') for x in ast.walk(t.node) if isinstance(x, ast.Call)) if hasattr(t, 'node') and t.node is not None else False:
                out.add(name)
    return out


def locked(n, fn, me, locks):
    """is node n inside `with self.<lock>` (or between acquire and release) in fn"""
    cur = n
    while cur is not None and cur is not fn:
        par = getattr(cur, '_parent', None)
        if isinstance(par, ast.With) and cur in par.body:
            for it in par.items:
                d = dotted(it.context_expr)
                if d and d.startswith(me + '.') and d.split('.', 1)[1] in locks:
                    return True
        if isinstance(par, ast.Try) and cur in par.body and any(isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == 'release'
                                                              for y in par.finalbody for x in ast.walk(y)):
            return True
        cur = par
    return False


def check_lock(prog, rep):
    rep.rule('lock', 'shared tables are changed, and handles assigned, only while the lock is held')
    cls = prog.classes.get('HDF5Cache')
    if cls is None:
        return
    locks = locks_of(cls)
    tables, handles = GUARDED['HDF5Cache']
    # entry points: methods that other classes call
    entries = set()
    for m in prog.modules.values():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Attribute) and n.attr in cls.methods and isinstance(n.value, ast.Name) and n.value.id != 'self':
                entries.add(n.attr)
    if not entries:
        entries = {'get_cache_file'}

    def visit(name, held, seen):
        if (name, held) in seen:
            return
        seen.add((name, held))
        f = cls.find_method(name)
        if f is None:
            return
        me = f.params[0]
        for n in walk_no_nested(f.node):
            h = held or locked(n, f.node, me, locks)
            d = None
            if isinstance(n, (ast.Subscript, ast.Attribute)) and isinstance(n.ctx, (ast.Store, ast.Del)):
                if isinstance(n, ast.Subscript):
                    d = dotted(n.value)
                    if not (d and d.split('.')[-1] in tables):
                        d = None
                elif n.attr in handles or (n.attr in tables):
                    d = dotted(n)
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUTATE:
                x = dotted(n.func.value)
                d = x if x and x.split('.')[-1] in tables else None
            if d:
                rep.count('guarded_accesses')
                if not h:
                    rep.viol('lock', f'{f.qualname if hasattr(f, "qualname") else cls.name + "." + name}:{ast.unparse(n)}', f'{ast.unparse(n)} is changed without holding the lock when reached from {"/".join(sorted(entries))}',
                             f'{f.module.rel}:{n.lineno} HDF5Cache.{name}')
            if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == me and n.attr in cls.methods:
                visit(n.attr, h, seen)

    seen = set()
    for e in entries:
        visit(e, False, seen)
    if not locks:
        rep.viol('lock', 'none', 'the cache registry has no lock', f'{cls.where}')
    rep.floor('guarded_accesses', 3)


def check(prog, rep):
    check_request(prog, rep)
    check_close(prog, rep)
    check_lock(prog, rep)
