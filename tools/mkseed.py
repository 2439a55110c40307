#!/usr/bin/env python3
"""mkseed.py SPEC.py: create /verif/seeded/<id>/ from a spec file that defines
id, property, needs, breaks, edits=[(file, old, new)], demo (C++ source).
Writes patch.diff against /repo HEAD (tree must be clean), demo.sh, demo.cpp, meta.json."""
import sys, os, subprocess, json
S = {}
exec(open(sys.argv[1]).read(), S)
R = os.environ.get('VERIF_REPO', '/repo')
assert not subprocess.check_output(['git','-C',R,'status','--porcelain']).strip(), 'repo dirty'
try:
    for f, old, new in S['edits']:
        p = os.path.join(R, f); s = open(p).read()
        assert s.count(old) == 1, (f, old, s.count(old))
        open(p, 'w').write(s.replace(old, new))
    diff = subprocess.check_output(['git','-C',R,'diff'], text=True)
finally:
    subprocess.check_call(['git','-C',R,'checkout','-q','--','.'])
# the lines it removes have to be lines of the original repository
import re
for f, old, new in S['edits']:
    assert f.endswith(('.h', '.cpp')) or os.environ.get('ALLOW_TCC'), 'only .h/.cpp count'
    base = subprocess.check_output(['git','-C',R,'show','f2a27c7:'+f], text=True).split('\n')
for l in diff.split('\n'):
    if l.startswith('-') and not l.startswith('---') and l[1:].strip():
        if not any(l[1:] in subprocess.run(['git','-C',R,'show','f2a27c7:'+f],stdout=subprocess.PIPE,text=True).stdout.split('\n') for f,_,_ in S['edits']):
            print('NOT ORIGINAL:', l)
d = os.path.dirname(os.path.dirname(os.path.abspath(__file__))) + '/seeded/' + S['id']
os.makedirs(d, exist_ok=True)
open(d+'/patch.diff','w').write(diff)
open(d+'/demo.cpp','w').write(S['demo'].lstrip())
dirs = S.get('srcs', 'src/reflect.cpp src/types/*.cpp src/types/*/*.cpp')
flags = S.get('flags', '')
open(d+'/demo.sh','w').write(f'''#!/bin/bash
# Builds demo.cpp against the sources in the current directory and runs it.
D=$(cd "$(dirname "$0")" && pwd)
O=/tmp/reflect-demo-{S['id']}
mkdir -p /tmp/reflect-demo-{S['id']}
trap 'rm -rf /tmp/reflect-demo-{S['id']}' EXIT
F="-std=c++11 -O1 -w -DREFLECT_USE_EXCEPTIONS=1 {flags} -I src -I ."
for f in {dirs}; do echo "$f"; done |
    xargs -P 8 -I@ sh -c 'g++ '"$F"' -c "@" -o "'"$O"'/$(echo "@" | tr / _).o"' || exit 3
g++ $F -c "$D/demo.cpp" -o "$O/zz_demo.o" || exit 3
g++ {flags} "$O"/*.o -o "$O/demo" -lpthread || exit 3
timeout 120 "$O/demo"
''')
os.chmod(d+'/demo.sh', 0o755)
json.dump(dict(property=S['property'], needs=S['needs'], what_it_breaks=S['breaks']), open(d+'/meta.json','w'), indent=1)
print('wrote', d)
