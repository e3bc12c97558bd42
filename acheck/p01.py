"""P01: equal digests imply equal configuration."""

import ast

from . import rule_digest
from .model import dotted, walk_no_nested, AnalysisError

SUMMARIES = {('TimeSamples', '_datachecksum'): 'data'}

EXEMPT = {
    ('PowerSpectra', 'freq_range'): 'selects the part of the spectra that is worked on, the cached spectra are complete',
    ('PowerSpectra', 'ind_low'): 'see freq_range',
    ('PowerSpectra', 'ind_high'): 'see freq_range',
    ('PointSpreadFunction', 'freq'): 'names the node in the cache file, see rule cache-node',
    ('PointSpreadFunction', 'grid_indices'): 'cached columns carry their own validity flag',
    ('SoundDeviceSamplesGenerator', 'collect_samples'): 'switch that ends a running recording',
    ('SampleSplitter', 'block_buffer'): 'blocks on their way to the consumers',
    ('SampleSplitter', 'buffer_size'): 'capacity of the buffers',
    ('SampleSplitter', 'buffer_overflow_treatment'): 'reaction to an overflow',
    ('SampleSplitter', '_buffer_lock'): 'mutual exclusion',
    ('WriteH5', 'file'): 'names the file that is written, not the blocks passed on',
    ('WriteH5', 'precision'): 'of the written file only',
    ('WriteH5', 'write_flag'): 'switch that ends a running recording',
}

LOSSY = {'round', 'int', 'len', 'hash', 'id', 'sum', 'min', 'max', 'mean', 'any', 'all', 'abs', 'set', 'frozenset', 'around',
         'bool', 'nansum', 'prod', 'median', 'unique'}
LOSSY_METHODS = {'round', 'sum', 'min', 'max', 'mean', 'any', 'all', 'astype', 'std', 'var', 'lower', 'upper', 'casefold', 'split',
                 'strip', 'trace', 'prod', 'item', 'argmax', 'argmin', 'flat', 'diagonal'}


def check_coverage(prog, rep):
    rep.rule('digest-coverage', 'every trait that an output (public property, generator metadata, public method or _calc) of a class '
             'with a digest reads - directly, through helpers, sub-objects or getters - is covered by the depends_on list of that '
             'digest: listed itself, through the digest of the sub-object it belongs to, or derived from covered traits')
    dc, findings, classes, obligations = rule_digest.run(prog, EXEMPT, SUMMARIES)
    rep.count('digest_classes', len(classes))
    rep.count('read_obligations', obligations)
    rep.floor('digest_classes', 60)
    rep.floor('read_obligations', 1000)
    for c in classes[:6]:
        C = prog.cls(c)
        rep.sample({'class': c, 'digest depends_on': dc.D.declared_deps(C, 'digest')})
    for (cls, dname, leaf), hit in sorted(findings.items()):
        c = sorted(hit)[0]
        label, where, trail = hit[c]
        K = prog.cls(cls)
        rep.viol('digest-coverage', f'{cls}.{dname}:{leaf}',
                 f'{label} of {c} depends on {leaf}, but {dname} of {cls} does not: configurations that differ in it share a digest '
                 f'({"; ".join(trail)})', where or K.where)
    return dc


def check_getters(prog, rep):
    """each digest getter hashes the declared dependencies of the trait it belongs to"""
    rep.rule('digest-getter', 'the getter of every Property *digest returns internal.digest(self[, its own name]) and the Property '
             'declares its dependencies explicitly (internal.digest reads the depends_on metadata)')
    for C in prog.all_classes():
        if not C.is_traits:
            continue
        for n, t in C.attrs.items():
            if not n.endswith('digest') or not t.is_property or n.startswith('_'):
                continue
            rep.count('getter_obligations')
            g = C.find_method(f'_get_{n}')
            if g is None or 'abstractmethod' in g.decorator_names():
                continue
            if t.depends_on(prog) is None:
                rep.viol('digest-getter', f'{C.name}.{n}', f'{n} declares no depends_on: internal.digest hashes no dependency at all', t.where)
        for mn, g in C.methods.items():
            if not (mn.startswith('_get_') and mn.endswith('digest')) or 'abstractmethod' in g.decorator_names():
                continue
            name = mn[5:]
            rep.count('getter_obligations')
            msg = getter_problem(prog, C, g, name)
            if msg:
                rep.viol('digest-getter', f'{C.name}.{mn}', msg, g.where)
    rep.floor('getter_obligations', 60)


def local_defs(fn):
    out = {}
    for s in walk_no_nested(fn):
        if isinstance(s, ast.Assign):
            for t in s.targets:
                if isinstance(t, ast.Name):
                    out.setdefault(t.id, []).append(s.value)
    return out


def inline(e, defs, depth=0):
    while isinstance(e, ast.Name) and len(defs.get(e.id, [])) == 1 and depth < 8:
        e = defs[e.id][0]
        depth += 1
    return e


def getter_problem(prog, C, g, name):
    rets = [n for n in walk_no_nested(g.node) if isinstance(n, ast.Return) and n.value is not None]
    if not rets:
        return f'{g.name} returns nothing'
    defs = local_defs(g.node)
    selfname = g.params[0] if g.params else 'self'
    for r in rets:
        e = inline(r.value, defs)
        if isinstance(e, ast.Call):
            f = e.func
            if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Call) and dotted(f.value.func) == 'super' and f.attr == g.name:
                continue
            if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id == selfname:
                h = C.find_method(f.attr)
                if h is not None and h.name != g.name and getter_problem(prog, C, h, name) is None:
                    continue
            tgt = prog.resolve_dotted(g.module, f)
            if tgt and tgt[0] == 'func' and tgt[1].module.name == 'acoular.internal' and tgt[1].name == 'digest':
                a = [inline(x, defs) for x in e.args]
                kw = {k.arg: inline(k.value, defs) for k in e.keywords}
                obj = a[0] if a else kw.get('obj')
                nm = a[1] if len(a) > 1 else kw.get('name')
                if not (isinstance(obj, ast.Name) and obj.id == selfname):
                    return f'{g.name} hashes {ast.unparse(obj) if obj is not None else "?"} instead of the object itself'
                want = 'digest' if nm is None else (nm.value if isinstance(nm, ast.Constant) else None)
                if want != name:
                    return f'{g.name} hashes the dependencies of {want!r} instead of {name!r}'
                continue
        if isinstance(e, (ast.Subscript, ast.Constant, ast.JoinedStr, ast.BinOp)) or isinstance(e, ast.Call):
            return f'{g.name} returns {ast.unparse(e)[:80]}, not the digest of the declared dependencies'
    return None


# ------------------------------------------------------------------ internal.digest
def check_function(prog, rep):
    rep.rule('digest-function', 'internal.digest/ldigest put the class and every declared dependency into one cryptographic hash without '
             'skipping, reordering ambiguity, rounding, slicing or truncation')
    m = prog.modules.get('acoular.internal')
    if m is None or 'digest' not in m.functions or 'ldigest' not in m.functions:
        raise AnalysisError('anchor vanished: acoular.internal.digest/ldigest')

    def closure(f, seen=None):
        seen = seen if seen is not None else {}
        if f.name in seen:
            return seen
        seen[f.name] = f
        for n in ast.walk(f.node):
            if isinstance(n, ast.Name) and n.id in m.functions:
                closure(m.functions[n.id], seen)
        return seen

    for fname in ('digest', 'ldigest'):
        f = m.functions[fname]
        fs = closure(f)
        nodes = [n for g in fs.values() for n in ast.walk(g.node)]
        rep.count('function_obligations', 5)
        parents = {}
        for g in fs.values():
            for n in ast.walk(g.node):
                for c in ast.iter_child_nodes(n):
                    parents[c] = n

        def bad(what, node, f=f, fname=fname):
            rep.viol('digest-function', f'internal.{fname}:{what}', f'{fname}: {what}', f'{m.rel}:{getattr(node, "lineno", f.node.lineno)} {fname}')

        # a strong hash, unsliced
        hashes = [n for n in nodes if isinstance(n, ast.Call) and _hash_name(prog, m, n)]
        if not hashes:
            bad('no cryptographic hash of the collected values', f.node)
        for n in nodes:
            if isinstance(n, ast.Attribute) and n.attr == 'hexdigest':
                p = parents.get(n)
                pp = parents.get(p)
                if isinstance(p, ast.Call) and isinstance(pp, ast.Subscript) and pp.value is p:
                    bad('the hash value is truncated', pp)
        # loops over the dependencies / the list: complete
        if fname == 'digest':
            deps = [n for n in nodes if isinstance(n, ast.Attribute) and n.attr == 'depends_on']
            if not deps and not any(isinstance(n, ast.Constant) and n.value == 'depends_on' for n in nodes):
                bad('the depends_on metadata is not read', f.node)
            cls_used = any((isinstance(n, ast.Attribute) and n.attr in ('__class__', '__qualname__', '__name__')) or
                           (isinstance(n, ast.Call) and dotted(n.func) == 'type') for n in nodes)
            if not cls_used:
                bad('the class of the object does not take part', f.node)
        else:
            if not any(isinstance(n, ast.Attribute) and n.attr == 'digest' for n in nodes):
                bad('the digests of the listed objects are not read', f.node)
        for n in nodes:
            if isinstance(n, (ast.For, ast.comprehension)):
                it = n.iter
                if isinstance(it, ast.Subscript) and isinstance(it.slice, ast.Slice):
                    bad(f'only a part of {ast.unparse(it.value)} takes part', it)
                if isinstance(it, ast.Call) and dotted(it.func) in ('set', 'frozenset', 'filter', 'islice', 'itertools.islice'):
                    bad(f'{dotted(it.func)} drops entries', it)
                if isinstance(n, ast.comprehension) and n.ifs:
                    bad('a condition drops entries', it)
            if isinstance(n, ast.For):
                # the loop that collects tokens: one on every path
                acc = _acc_counts(n.body)
                if acc and 0 in acc and max(acc) > 0:
                    bad('a path through the loop contributes nothing', n)
                for b in ast.walk(n):
                    if isinstance(b, ast.Break):
                        bad('the loop ends early', b)
            if isinstance(n, ast.Call):
                d = dotted(n.func) or ''
                last = d.split('.')[-1]
                if isinstance(n.func, ast.Name) and n.func.id in LOSSY and not (last == 'len' and isinstance(parents.get(n), (ast.Call, ast.FormattedValue, ast.BinOp))):
                    bad(f'{n.func.id}() maps different values to the same token', n)
                elif isinstance(n.func, ast.Attribute) and n.func.attr in LOSSY_METHODS and not (
                        n.func.attr in ('split', 'strip') and not _is_value(n.func.value)):
                    bad(f'.{n.func.attr}() maps different values to the same token', n)
            if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice) and isinstance(n.value, ast.Call):
                d = n.value.func.attr if isinstance(n.value.func, ast.Attribute) else n.value.func.id if isinstance(n.value.func, ast.Name) else ''
                if d in ('str', 'repr', 'bytes', 'tobytes', 'encode', 'format', 'dumps', 'tolist', 'ravel', 'flatten', 'reshape'):
                    bad('only a part of the value takes part', n)
            if isinstance(n, ast.FormattedValue) and n.format_spec is not None:
                bad('a format specification rounds values', n)
            if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Mod) and isinstance(n.left, ast.Constant):
                bad('a format specification rounds values', n)
        if not any(isinstance(n, ast.Attribute) and n.attr in ('tobytes', 'data', 'dumps') for n in nodes):
            bad('array contents are only represented by their (abbreviated) text', f.node)


def _is_value(e):
    return False


def _hash_name(prog, m, call):
    r = prog.resolve_dotted(m, call.func) if isinstance(call.func, (ast.Name, ast.Attribute)) else None
    if r and r[0] == 'ext':
        return r[1].split('.')[0] == 'hashlib' or r[1].split('.')[-1] in ('md5', 'sha1', 'sha256', 'sha512', 'blake2b')
    return False


def _acc_counts(stmts):
    """set of numbers of accumulator updates over the paths of a statement list (None: no update at all)"""
    def one(s):
        if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute) and s.value.func.attr in ('append', 'update', 'extend', 'write'):
            return {1}
        if isinstance(s, ast.AugAssign):
            return {1}
        if isinstance(s, ast.If):
            return seq(s.body) | seq(s.orelse)
        if isinstance(s, ast.Try):
            ok = comb(seq(s.body), seq(s.orelse))
            out = set(ok)
            for h in s.handlers:
                out |= seq(h.body)
            return comb(out, seq(s.finalbody))
        if isinstance(s, (ast.For, ast.While)):
            return {0}
        if isinstance(s, ast.With):
            return seq(s.body)
        return {0}

    def comb(a, b):
        return {min(2, x + y) for x in a for y in b}

    def seq(ss):
        out = {0}
        for s in ss:
            if isinstance(s, (ast.Continue, ast.Return, ast.Raise)):
                return out
            out = comb(out, one(s))
        return out

    return seq(stmts)


# ------------------------------------------------------------------ names of cache nodes
def check_nodes(prog, rep):
    rep.rule('cache-node', 'the name of every node or file that holds cached results contains the unmodified digest of its object (for '
             'point spread functions: the digest names the file, the unrounded frequency the node)')
    META = {'is_cached', 'create_new_group', 'create_extendable_array', 'remove_data'}
    for C in prog.all_classes():
        if C.find_trait('digest') is None or C.find_trait('h5f') is None:
            continue
        for f in C.methods.values():
            for n in walk_no_nested(f.node):
                if not (isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in META):
                    continue
                recv = n.func.value
                if not (isinstance(recv, ast.Attribute) and recv.attr == 'h5f' or isinstance(recv, ast.Name)):
                    continue
                if not n.args:
                    continue
                rep.count('node_obligations')
                leaves = provenance(prog, C, f, n.args[0])
                ok = any(k == 'attr' and v == 'self.digest' for k, v, _ in leaves)
                for p in f.params[1:]:
                    vals = selected(C, f, p)
                    if len(vals) > 1 and p not in names_in(f, n.args[0]):
                        rep.viol('cache-node', f'{C.name}.{f.name}:{n.func.attr}:{p}',
                                 f'the name {ast.unparse(n.args[0])} of the cached node is the same for {", ".join(sorted(vals))}: one result is returned for the other', f.where)
                if not ok:
                    # the file name itself carries the digest
                    for g in C.all_methods().values():
                        for c in walk_no_nested(g.node):
                            if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr == 'get_cache_file' and len(c.args) > 1:
                                lv = provenance(prog, C, g, c.args[1])
                                if any(k == 'attr' and v == 'self.digest' for k, v, _ in lv):
                                    ok = any(k == 'attr' and v.split('.')[-1] == 'freq' for k, v, _ in leaves)
                if not ok:
                    rep.viol('cache-node', f'{C.name}.{f.name}:{n.func.attr}',
                             f'the name {ast.unparse(n.args[0])} of the cached node does not contain the digest', f.where)
                for k, v, how in leaves:
                    if how and k == 'attr':
                        rep.viol('cache-node', f'{C.name}.{f.name}:{v}', f'{v} enters the name of the cached node through {how}, which is not injective', f.where)
    rep.floor('node_obligations', 8)


def selected(C, f, p):
    """the different constants that the callers of f in its class pass for its parameter p"""
    i = f.params.index(p)
    out = set()
    for g in C.all_methods().values():
        for c in walk_no_nested(g.node):
            if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr == f.name and isinstance(c.func.value, ast.Name):
                a = c.args[i - 1] if len(c.args) >= i else next((k.value for k in c.keywords if k.arg == p), None)
                if isinstance(a, ast.Constant) and isinstance(a.value, str):
                    out.add(repr(a.value))
    return out


def names_in(f, e, seen=()):
    defs = local_defs(f.node)
    out = set()
    for n in ast.walk(e):
        if isinstance(n, ast.Name) and n.id not in seen:
            out.add(n.id)
            for v in defs.get(n.id, []):
                out |= names_in(f, v, seen + (n.id,))
    return out


def provenance(prog, C, f, e, depth=0, how='', seen=()):
    """[(kind, name, lossy operation)] of the values that form a string expression"""
    out = []
    if depth > 10:
        return out
    defs = local_defs(f.node)
    if isinstance(e, ast.Name):
        if e.id in defs and e.id not in seen:
            for v in defs[e.id]:
                out += provenance(prog, C, f, v, depth + 1, how, seen + (e.id,))
            return out
        if e.id in f.params and f.cls is not None:
            i = f.params.index(e.id)
            for g in C.all_methods().values():
                for c in walk_no_nested(g.node):
                    if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr == f.name and isinstance(c.func.value, ast.Name):
                        if len(c.args) >= i:
                            out += provenance(prog, C, g, c.args[i - 1], depth + 1, how)
                        for k in c.keywords:
                            if k.arg == e.id:
                                out += provenance(prog, C, g, k.value, depth + 1, how)
            return out
        return [('name', e.id, how)]
    if isinstance(e, ast.Attribute):
        d = dotted(e)
        if d and d.startswith('self.') and d.count('.') == 1:
            t = C.find_trait(d[5:])
            if t is not None and t.is_property and not d.endswith('digest'):
                g = C.find_method(f'_get_{d[5:]}')
                if g is not None:
                    for r in walk_no_nested(g.node):
                        if isinstance(r, ast.Return) and r.value is not None:
                            out += provenance(prog, C, g, r.value, depth + 1, how)
        return out + [('attr', d or ast.unparse(e), how)]
    if isinstance(e, ast.FormattedValue):
        h = how
        if e.format_spec is not None and any(isinstance(x, ast.Constant) and any(c in str(x.value) for c in '.efgd%') for x in e.format_spec.values):
            h = 'a format specification'
        return provenance(prog, C, f, e.value, depth + 1, h, seen)
    if isinstance(e, ast.Subscript):
        return provenance(prog, C, f, e.value, depth + 1, 'slicing' if isinstance(e.slice, ast.Slice) else how, seen)
    if isinstance(e, ast.Call):
        d = (dotted(e.func) or '').split('.')[-1]
        if isinstance(e.func, ast.Name) and d in LOSSY:
            how = f'{d}()'
        if isinstance(e.func, ast.Attribute):
            if isinstance(e.func.value, ast.Name) and e.func.value.id in (f.params[:1] or ['self']):
                g = C.find_method(e.func.attr)
                if g is not None:
                    for r in walk_no_nested(g.node):
                        if isinstance(r, ast.Return) and r.value is not None:
                            out += provenance(prog, C, g, r.value, depth + 1, how)
                    return out
            out += provenance(prog, C, f, e.func.value, depth + 1, how, seen)
        for a in e.args:
            out += provenance(prog, C, f, a, depth + 1, how, seen)
        return out
    if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Mod):
        return provenance(prog, C, f, e.right, depth + 1, 'a format specification', seen) + provenance(prog, C, f, e.left, depth + 1, how, seen)
    for c in ast.iter_child_nodes(e):
        if isinstance(c, ast.expr):
            out += provenance(prog, C, f, c, depth + 1, how, seen)
    return out


# ------------------------------------------------------------------ lossy summaries
def check_summaries(prog, rep):
    """a digest dependency that is itself a lossy function of the data"""
    rep.rule('digest-summary', 'a digest dependency that stands for array data is not a reduction (sum, mean, slice) of it')
    from .deps import Deps, strip

    D = Deps(prog)
    seen = set()
    for C in prog.all_classes():
        if not C.is_traits or C.find_trait('digest') is None:
            continue
        for d in D.declared_deps(C, 'digest'):
            d = strip(d)
            if '.' in d:
                continue
            t = C.find_trait(d)
            if t is None or not t.is_property:
                continue
            g = C.find_method(f'_get_{d}')
            if g is None or (g.cls.name, d) in seen or not d.startswith('_'):
                continue
            seen.add((g.cls.name, d))
            rep.count('summary_obligations')
            for r in ast.walk(g.node):
                if isinstance(r, ast.Call) and (isinstance(r.func, ast.Attribute) and r.func.attr in LOSSY_METHODS or isinstance(r.func, ast.Name) and r.func.id in LOSSY):
                    rep.viol('digest-summary', f'{g.cls.name}.{d}', f'{d} reduces the data with {ast.unparse(r)[:60]}: different data can have the same digest', g.where)
    for C in prog.all_classes():
        if not C.is_traits or C.find_trait('digest') is None:
            continue
        deps = [strip(d) for d in D.declared_deps(C, 'digest')]
        for d in deps:
            t = C.find_trait(d) if '.' not in d else None
            g = C.find_method(f'_get_{d}')
            if t is None or not t.is_property or g is None:
                continue
            names = [dotted(n.func) if isinstance(n, ast.Call) else n.attr for n in ast.walk(g.node) if isinstance(n, ast.Call) or (isinstance(n, ast.Attribute) and n.attr in ('stem', 'name'))]
            if not any(n and any(w in n.split('.')[-1] for w in ('basename', 'stem', 'splitext')) or n == 'name' for n in names):
                continue
            rep.count('summary_obligations')
            whole = [strip(x).split('.')[0] for x in D.declared_deps(C, d)]
            if any(w in deps for w in whole) or any(content_of(C, D, x, set(whole) | {d}, set()) for x in deps if x != d):
                continue
            rep.viol('digest-summary', f'{C.name}.{d}', f'the digest of {C.name} knows of {", ".join(whole)} only the last part of its name: what is loaded from files of equal name in other places has the same digest', g.where)


def content_of(C, D, x, files, seen):
    """does the dependency take in something that is loaded from the files?"""
    from .deps import strip

    x = x.split('.')[0]
    if x in seen or x in files:
        return False
    seen.add(x)
    t = C.find_trait(x)
    if t is None:
        return False
    if t.is_property:
        g = C.find_method(f'_get_{x}')
        reads = {n.attr for n in ast.walk(g.node) if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name)} if g is not None else set()
        return any(content_of(C, D, y, files, seen) for y in reads | {strip(y) for y in D.declared_deps(C, x)})
    for f in C.all_methods().values():
        stores = {n.attr for n in ast.walk(f.node) if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store)}
        if x in stores and not f.name.startswith('_set_') and f.name != '__init__':
            return True
    return False
