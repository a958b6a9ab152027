#!/bin/bash
# trybug.sh ID... : demo on the unchanged tree, then in /tmp scratch copy with the patch: demo, tests; then the property's check against the copy
for id in "$@"; do
 s=/verif/seeded/$id; p=$(/opt/venv/bin/python -c "import json;print(json.load(open('$s/meta.json'))['property'])")
 w=/tmp/bug_$id; rm -rf "/tmp/bug_$id"; cp -a /repo $w
 (cd /repo && bash $s/demo.sh >/tmp/bug_$id.d0 2>&1); d0=$?
 (cd $w && git apply $s/patch.diff) || { echo "$id: PATCH FAILS"; continue; }
 (cd $w && bash $s/demo.sh >/tmp/bug_$id.d1 2>&1); d1=$?
 (cd $w && VISUALTEST=false PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 PYTHONPATH=$w/src timeout 400 /opt/venv/bin/python -m pytest -q -p no:cacheprovider -n 8 --dist worksteal --timeout=300 -m "not visual" --ignore=tests/test_fasteners.py tests > /tmp/bug_$id.t 2>&1); t=$(tail -1 /tmp/bug_$id.t)
 (cd /verif && VF_REPO=$w timeout 400 ./check $p > /tmp/bug_$id.c 2>&1); c=$?
 echo "$id [$p] demo clean=$d0 bug=$d1 | check=$c | tests: $t"
 rm -rf "/tmp/bug_$id"
done
