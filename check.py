#!/usr/bin/env python3
"""Decide one property of acoular from its source text:  check.py <ID> [--all]"""

import os
import pathlib
import sys
import time
import traceback

sys.path.insert(0, str(pathlib.Path(__file__).resolve().parent))
sys.dont_write_bytecode = True

from acheck.core import Report, finish  # noqa: E402
from acheck.model import AnalysisError, Program  # noqa: E402
from acheck.registry import PROPERTIES  # noqa: E402


def run(pid, prog, t0):
    spec = PROPERTIES[pid]
    rep = Report(pid)
    for rule in spec['rules']:
        rule(prog, rep)
    extra = None
    if os.environ.get('VERIF_TIER') == 'thorough':
        from acheck.mutants import sensitivity

        extra = sensitivity(pid, prog, rep)
    return finish(rep, spec['explanation'], prog, t0, extra)


def main():
    pids = sys.argv[1:]
    t0 = time.time()
    prog = None
    rc = 0
    if pids == ['--all']:
        pids = list(PROPERTIES)
    for pid in pids:
        try:
            prog = prog or Program()
            r = run(pid, prog, t0)
        except AnalysisError as e:
            print(f'ANALYSIS-ERROR property={pid}: {e}', file=sys.stderr)
            r = 3
        except Exception:
            traceback.print_exc()
            r = 4
        rc = max(rc, r)
        t0 = time.time()
    sys.exit(rc)


if __name__ == '__main__':
    main()
