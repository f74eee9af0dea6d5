#!/bin/bash
# tryseed.sh ID...: confirms a planted bug (build, tests, demo) and runs its
# property's check. "nocheck" as first argument skips the check, "onlycheck"
# runs only it.
mode=all; case "$1" in nocheck|onlycheck) mode=$1; shift;; esac
V=$(cd "$(dirname "$0")/.." && pwd)
trap 'git -C /repo checkout -q -- .' EXIT
for id in "$@"; do
  s=$V/seeded/$id; p=$(python3 -c "import json,sys;print(json.load(open('$s/meta.json'))['property'])")
  git -C /repo checkout -q -- .
  D=$(mktemp -d /tmp/try.XXXXXX); cp -a "$s/." "$D/"
  if [ $mode != onlycheck ]; then
    (cd /repo && bash "$D/demo.sh" >"$D/o0" 2>&1); r0=$?
    git -C /repo apply "$s/patch.diff" || { echo "$id: PATCH DOES NOT APPLY"; continue; }
    bash /opt/vp/build.sh >"$D/b" 2>&1 || echo "$id: BUILD FAILS"
    bash /opt/vp/test.sh "$D/t.json" >/dev/null 2>&1
    t=$(python3 -c "import json;a=json.load(open('$D/t.json'));print(a['failed'])")
    (cd /repo && bash "$D/demo.sh" >"$D/o1" 2>&1); r1=$?
    echo "$id [$p]: demo clean=$r0 patched=$r1 failed tests=$t :: $(tail -1 $D/o1)"
    [ $r0 != 0 ] && tail -5 "$D/o0"
  else
    git -C /repo apply "$s/patch.diff" || { echo "$id: PATCH DOES NOT APPLY"; continue; }
  fi
  if [ $mode != nocheck ]; then
    (cd $V && VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 check.py $p >"$D/c" 2>&1); rc=$?
    echo "$id [$p]: check exit=$rc $(grep -m1 VIOLATION $D/c)"
  fi
  git -C /repo checkout -q -- .
done
bash /opt/vp/build.sh >/dev/null 2>&1
