#!/bin/bash
# build + stable tests of the repository ($VERIF_REPO or /repo), summary only
R=${VERIF_REPO:-/repo}
if [ $R = /repo ]; then
bash /opt/vp/build.sh >/tmp/b.log 2>&1 || { echo BUILD FAILED; grep -n error /tmp/b.log | head; exit 1; }
bash /opt/vp/test.sh /tmp/o.json >/dev/null 2>&1
else
cd $R; export CC=/usr/bin/gcc CXX=/usr/bin/g++
grep -q "HOME_DIRECTORY:INTERNAL=$R\$" _build/CMakeCache.txt 2>/dev/null || { rm -rf ./_build; cmake -S . -B _build -G Ninja -DUSE_TCMALLOC=OFF "-DCMAKE_CXX_COMPILE_OBJECT=<CMAKE_CXX_COMPILER> <DEFINES> <INCLUDES> <FLAGS> -Wno-error -o <OBJECT> -c <SOURCE>" >/dev/null 2>&1; }
ninja -C _build >/tmp/b.log 2>&1 || { echo BUILD FAILED; grep -n error /tmp/b.log | head; exit 1; }
ulimit -c 0; rm -f _build/results.txt
python3 /opt/vp/run_tests.py $R/_build $R/_build/results.txt >/dev/null 2>&1
python3 /opt/vp/results.py /tmp/o.json lines:$R/_build/results.txt >/dev/null 2>&1
fi
python3 -c "
import json;o=json.load(open('/tmp/o.json'));b=json.load(open('/opt/vp/BASELINE.json'))
m=set(b['stable'])-set(o['passed']);print(len(o['passed']),'passed; failed',o['failed'],'stable missing:',m)
raise SystemExit(bool(m))"
