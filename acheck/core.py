"""Report, known findings, evidence and exit codes shared by all checks."""

import json
import os
import pathlib
import re
import sys
import time

VERIF = pathlib.Path(__file__).resolve().parent.parent
EVID = VERIF / 'evidence'
KNOWN = VERIF / 'known_findings.txt'


class Finding:
    def __init__(self, rule, key, message, where=''):
        self.rule, self.key, self.message, self.where = rule, key, message, where

    @property
    def id(self):
        return f'{self.rule}:{self.key}'

    def as_dict(self):
        return {'rule': self.rule, 'construct': self.key, 'where': self.where, 'message': self.message}


class Report:
    """What one property check analysed, and what it found."""

    def __init__(self, pid):
        self.pid = pid
        self.findings = {}
        self.counts = {}
        self.samples = []
        self.notes = []
        self.rules = []
        self.weak = []

    def rule(self, name, text):
        if (name, text) not in self.rules:
            self.rules.append((name, text))

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def sample(self, x):
        if len(self.samples) < 12:
            self.samples.append(x)

    def floor(self, name, minimum):
        """The analysis is only believed when it saw at least this much of the code base."""
        if self.counts.get(name, 0) < minimum:
            self.weak.append(f'{name}: {self.counts.get(name, 0)} < {minimum}')

    def viol(self, rule, key, message, where=''):
        f = Finding(rule, key, message, where)
        self.findings.setdefault(f.id, f)


def load_known(pid):
    out = {}
    if KNOWN.exists():
        for line in KNOWN.read_text().splitlines():
            m = re.match(r'known: property=(\S+) key=(\S+) (.*)', line)
            if m and m.group(1) == pid:
                out[m.group(2)] = m.group(3)
    return out


def finish(rep, explanation, prog, t0, extra=None):
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    known = load_known(rep.pid)
    new, listed = [], []
    for fid, f in sorted(rep.findings.items()):
        (listed if fid in known else new).append(f)
    EVID.mkdir(exist_ok=True)
    cov = {
        'explanation': explanation,
        'rules': [{'rule': a, 'text': b} for a, b in rep.rules],
        'files_analysed': len(prog.modules),
        'classes_analysed': len(prog.all_classes()),
        'functions_analysed': sum(1 for _ in prog.all_funcs()),
        'source_sha256': prog.digest,
        'analysed': rep.counts,
        'samples': rep.samples,
        'findings': [f.as_dict() for f in new],
        'known_findings': [f.as_dict() for f in listed],
        'obligations': sum(v for k, v in rep.counts.items() if k.endswith('obligations')),
    }
    cov['discharged'] = max(0, cov['obligations'] - len(rep.findings))
    if extra:
        cov.update(extra)
    ev = {
        'property': rep.pid, 'tier': tier, 'seed': seed, 'level': 'other', 'coverage': cov,
        'assumptions': rep.notes, 'wall_s': round(time.time() - t0, 3), 'violations': len(new),
    }
    path = EVID / f'{rep.pid}.json'
    path.write_text(json.dumps(ev, indent=1, default=str) + '\n')
    for f in listed:
        print(f'KNOWN-FINDING: property={rep.pid} {f.id} {known[f.id]}')
    if new:
        rp = EVID / f'{rep.pid}.violations.txt'
        rp.write_text('\n'.join(f'{f.id}\n  at {f.where}\n  {f.message}' for f in new) + '\n')
        for f in new:
            print(f'{f.where}: [{f.rule}] {f.key}: {f.message}')
        print(f'VIOLATION property={rep.pid} replay={rp}')
        return 1
    if rep.weak:
        print(f'ANALYSIS-INCOMPLETE property={rep.pid}: ' + '; '.join(rep.weak), file=sys.stderr)
        return 3
    print(f'OK property={rep.pid} ' + ' '.join(f'{k}={v}' for k, v in rep.counts.items()))
    return 0
