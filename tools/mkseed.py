#!/usr/bin/env python3
"""mkseed.py NAME PROPERTY FILE  <<  JSON on stdin {edits:[[file,old,new]..], needs, breaks, demo}: writes /verif/seeded/NAME (by hand only)"""
import sys, os, json, subprocess
name, prop = sys.argv[1:3]
ns = {}; exec(sys.stdin.read(), ns)
d = '/verif/seeded/' + name; os.makedirs(d, exist_ok=True)
R = '/repo/'
assert not subprocess.run(['git', '-C', R, 'status', '--porcelain'], capture_output=True, text=True).stdout
try:
    for f, old, new in ns['edits']:
        s = open(R + f, encoding='latin-1').read(); assert s.count(old) == 1, (f, old, s.count(old))
        open(R + f, 'w', encoding='latin-1').write(s.replace(old, new))
    open(d + '/patch.diff', 'w').write(subprocess.run(['git', '-C', R, 'diff'], capture_output=True, text=True).stdout)
finally: subprocess.run(['git', '-C', R, 'checkout', '-q', '--', '.'])
open(d + '/demo.sh', 'w').write('#!/bin/bash\n# run in /repo after the build: 0 if the behaviour is right\n' + ns['demo'])
os.chmod(d + '/demo.sh', 0o755)
json.dump(dict(property=prop, needs=ns['needs'], what_it_breaks=ns['breaks']), open(d + '/meta.json', 'w'), indent=1)
for n, t in ns.get('files', {}).items(): open(d + '/' + n, 'w').write(t)
