#!/bin/bash
# tools/try_bug.sh <id> [check]: confirms a planted change in a scratch copy: demo passes without and fails with the patch, stable tests pass.
# With "check", also runs the property's quick check against /repo with the patch applied there (and undone).
id=$1; D=/verif/seeded/$id; T=$(mktemp -d /tmp/bug.XXXXXX); trap 'rm -rf "$T"' EXIT
export PYTHONDONTWRITEBYTECODE=1
cp -a /repo $T/repo; cp -r $D $T/demo; rm -f $T/demo/*.diff $T/demo/meta.json
cd $T/repo; export PYTHONPATH=$T/repo NUMBA_CACHE_DIR=$T/nb1
( timeout 300 bash $T/demo/demo.sh > $T/d0.log 2>&1; echo "demo unchanged: $?" ) 
git apply $D/patch.diff || { echo "PATCH DOES NOT APPLY"; exit 1; }
export NUMBA_CACHE_DIR=$T/nb2
( timeout 300 bash $T/demo/demo.sh > $T/d1.log 2>&1; echo "demo patched: $?"; tail -2 $T/d1.log )
/opt/venv/bin/python -m pytest -q -p no:cacheprovider testing 2>&1 | tail -4
if [ "$2" = check ]; then
  p=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
  unshare -m bash -c "mount --bind $T/repo /repo; cd /verif; unset PYTHONPATH; python3 check.py $p quick; echo check: \$?" 2>&1 | cut -c1-250 | tail -6
fi
