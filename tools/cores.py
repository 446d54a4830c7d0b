#!/usr/bin/env python3
"""offline generator of harness/cores.txt (pool mask verdict): U = confirmed unsatisfiable by an independent
SMT solver, ? = no model up to size 3 found but not confirmed."""
import subprocess, os, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
exe = '/tmp/cores'
subprocess.check_call(['g++', '-std=c++17', '-O2', '-w', '-I', R + '/harness', R + '/tools/cores.cpp', '-o', exe])
import re
names = re.findall(r'^ \{"(\w+)",\{', open(R + '/harness/pools.hpp').read(), re.M)
with ThreadPoolExecutor(8) as ex:
    outs = list(ex.map(lambda n: subprocess.run([exe, n], capture_output=True, text=True).stdout, names))
    lines = [l.split('\t') for o in outs for l in o.split('\n') if l]
    def z3(l):
        try: r = subprocess.run(['z3', '-in', '-T:8'], input=l[2], capture_output=True, text=True, timeout=20).stdout.strip()
        except Exception: r = 'timeout'
        return r
    res = list(ex.map(z3, lines))
with open(R + '/harness/cores.txt', 'w') as f:
    for l, r in zip(lines, res): f.write('%s %s %s\n' % (l[0], l[1], 'U' if r == 'unsat' else '?'))
from collections import Counter
print(Counter((l[0], r[:8]) for l, r in zip(lines, res)))
