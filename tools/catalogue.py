#!/usr/bin/env python3
"""Record the functions (and their local names) of the code base, see acheck/normal.py."""
import ast, pathlib, sys
ROOT = pathlib.Path(__file__).resolve().parent.parent
sys.path.insert(0, str(ROOT)); sys.dont_write_bytecode = True
from acheck import normal
from acheck.model import REPO, PKG
trees = {}
for p in sorted((REPO/PKG).rglob('*.py')):
    parts = list(p.relative_to(REPO).with_suffix('').parts)
    if parts[-1] == '__init__':
        parts.pop()
    trees['.'.join(parts)] = ast.parse(p.read_text())
normal.CATALOGUE.write_text(normal.catalogue(trees))
