#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.realpath(__file__)))
sys.path.insert(0, V + '/tools')
from plan import PLAN
T = 'symbolic execution of the compiled crate (LLVM IR) with Z3; native replay of counterexamples'
NOTE = 'Every path of the real code within the stated bounds, decided by Z3 for all values of the symbolic inputs; nothing outside the bounds. Trusted: rustc/LLVM, the executor and its models of libc/file system (validated against native runs of sampled paths on every run), Z3. Bounds: '
checks = [dict(property=p, quick_cmd='python3 check.py %s --tier quick' % p, thorough_cmd='python3 check.py %s --tier thorough' % p,
               technique=T, level='model_checking', level_note=NOTE + PLAN[p]['bounds'] + '.') for p in PLAN]
NA = []
json.dump(dict(version=1, setup_cmd='python3 check.py --setup',
    hooks=dict(guard='cfg(fpv)', enable='RUSTFLAGS="--cfg fpv"', source_commits=[open(V + '/tools/hook_commit').read().strip()]),
    checks=checks, not_applicable=NA), open(V + '/MANIFEST.json', 'w'), indent=1)
