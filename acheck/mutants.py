"""Sensitivity of a check (thorough tier): how many small edits of the analysed source it reports.

The edits are made in memory on the text the analysis reads; nothing of acoular is run and /repo is not touched.  Half of the sample is made of
edits that usually change what the code does (a dropped dependency, a deleted statement, a shifted constant, a turned comparison), the rest of
edits that never do (a statement without effect, renamed locals).  The result is descriptive: an unreported edit need not break this property.
"""

import ast
import multiprocessing
import os
import random
import time

from .core import Report
from .model import AnalysisError, PKG, Program, REPO

FLIP = {ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.Eq: '!=', ast.NotEq: '==', ast.Is: 'is not', ast.IsNot: 'is'}
SIGN = {ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>=', ast.Eq: '==', ast.NotEq: '!=', ast.Is: 'is', ast.IsNot: 'is not'}


def _offsets(text):
    out, n = [0], 0
    for line in text.splitlines(keepends=True):
        n += len(line.encode())
        out.append(n)
    return out


def _edits(text):
    """All (operator, start, end, replacement) on the utf-8 bytes of one file."""
    tree = ast.parse(text)
    off = _offsets(text)
    raw = text.encode()

    def span(n):
        return off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset

    out = []
    for n in ast.walk(tree):
        if isinstance(n, ast.keyword) and n.arg == 'depends_on' and isinstance(n.value, ast.List) and len(n.value.elts) > 1:
            for i, e in enumerate(n.value.elts):
                s, t = span(e)
                if i:
                    s = span(n.value.elts[i - 1])[1]
                else:
                    t = span(n.value.elts[1])[0]
                out.append(('drop-dependency', s, t, b''))
        elif isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            for b in ast.walk(n):
                if isinstance(b, (ast.Assign, ast.AugAssign)) or (
                    isinstance(b, ast.Expr) and isinstance(b.value, ast.Call)
                ) or (isinstance(b, ast.Raise)):
                    s, t = span(b)
                    out.append(('delete-statement', s, t, b'pass'))
                elif isinstance(b, ast.If):
                    s, t = span(b.test)
                    out.append(('negate-test', s, t, b'not (' + raw[s:t] + b')'))
                elif isinstance(b, ast.Compare) and len(b.ops) == 1 and type(b.ops[0]) in FLIP:
                    s, t = span(b.left)[1], span(b.comparators[0])[0]
                    mid = raw[s:t]
                    a = SIGN[type(b.ops[0])].encode()
                    if mid.count(a) == 1:
                        out.append(('turn-comparison', s, t, mid.replace(a, FLIP[type(b.ops[0])].encode())))
                elif isinstance(b, ast.Constant) and type(b.value) is int and b.value in (0, 1, 2):
                    s, t = span(b)
                    out.append(('shift-constant', s, t, str(b.value + 1).encode()))
                elif isinstance(b, ast.Call) and isinstance(b.func, ast.Attribute) and b.func.attr == 'copy' and not b.args:
                    s, t = span(b)
                    u, v = span(b.func.value)
                    out.append(('drop-copy', s, t, raw[u:v]))
                elif isinstance(b, ast.BinOp) and isinstance(b.op, (ast.Add, ast.Sub)):
                    s, t = span(b.left)[1], span(b.right)[0]
                    a, z = (b'+', b'-') if isinstance(b.op, ast.Add) else (b'-', b'+')
                    if raw[s:t].count(a) == 1:
                        out.append(('swap-sign', s, t, raw[s:t].replace(a, z)))
            first = n.body[0]
            k = 1 if isinstance(first, ast.Expr) and isinstance(first.value, ast.Constant) and len(n.body) > 1 else 0
            b = n.body[k]
            s = span(b)[0]
            if b.lineno > n.lineno and not getattr(b, 'decorator_list', None):
                out.append(('same:no-effect', s, s, b'_ = None\n' + b' ' * b.col_offset))
    seen, uniq = set(), []
    for e in out:
        if e not in seen:
            seen.add(e)
            uniq.append(e)
    return uniq


def _findings(pid, overrides):
    from .registry import PROPERTIES

    rep = Report(pid)
    prog = Program(overrides=overrides)
    for rule in PROPERTIES[pid]['rules']:
        rule(prog, rep)
    return set(rep.findings)


def _job(x):
    pid, rel, op, s, t, new, line = x
    raw = (REPO / rel).read_bytes()
    text = (raw[:s] + new + raw[t:]).decode()
    try:
        compile(text, rel, 'exec')
    except SyntaxError:
        return op, rel, line, None
    try:
        return op, rel, line, sorted(_findings(pid, {rel: text}))
    except AnalysisError as e:
        return op, rel, line, [f'analysis stops: {e}']
    except Exception as e:  # the edit made the source meaningless to the analysis; counted separately
        return op, rel, line, [f'analysis stops: {type(e).__name__}: {e}']


def _anchored(pid):
    import specs

    return {f for f in specs.P[pid]['files'] if '*' not in f} if pid in specs.P else set()


def sensitivity(pid, prog, rep, budget=420.0, limit=360):
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    rng = random.Random(f'{pid}-{seed}')
    by = {}
    files = _anchored(pid)
    for p in sorted((REPO / PKG).rglob('*.py')):
        if files and str(p.relative_to(REPO)) not in files:
            continue
        rel = str(p.relative_to(REPO))
        if '/demo/' in rel or 'version' in rel or '__init__' in rel:
            continue
        raw = p.read_bytes()
        for op, s, t, new in _edits(raw.decode()):
            by.setdefault(op, []).append((pid, rel, op, s, t, new, raw[:s].count(b'\n') + 1))
    for v in by.values():
        rng.shuffle(v)
    todo = []
    while len(todo) < limit and any(by.values()):
        for op in sorted(by):
            if by[op]:
                todo.append(by[op].pop())
    base = set(rep.findings)
    t0 = time.time()
    table, caught, noisy, done = {}, [], [], 0
    pool = multiprocessing.Pool(min(8, os.cpu_count() or 1))
    try:
        for op, rel, line, got in pool.imap_unordered(_job, todo):
            if got is None:
                continue
            done += 1
            row = table.setdefault(op, {'edits': 0, 'reported': 0})
            row['edits'] += 1
            new = [g for g in got if g not in base]
            if new:
                row['reported'] += 1
                (noisy if op.startswith('same:') else caught).append({'edit': op, 'at': f'{rel}:{line}', 'reported': new[:3]})
            if time.time() - t0 > budget:
                break
    finally:
        pool.terminate()
        pool.join()
    return {
        'sensitivity': {
            'edits_analysed': done,
            'by_operator': table,
            'reported_examples': caught[:25],
            'reports_on_edits_without_effect': noisy,
        }
    }
