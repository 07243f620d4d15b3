#!/bin/bash
# trybug.sh ID [CHECK...]: applies seeded/ID to /repo, builds, runs the stable tests, the demo and
# the checks (default: the one of its property), and restores /repo. Prints one line.
cd "$(dirname "$0")/.."
b="seeded/$1"; id="$1"; shift
checks=("$@")
[ ${#checks[@]} = 0 ] && checks=("$(python3 -c 'import json,sys; print(json.load(open(sys.argv[1]))["property"])' "$b/meta.json")")
out="/tmp/trybug.$id"; mkdir -p "$out"
export VERIF_SEED="${VERIF_SEED:-1}" VERIF_TIER="${VERIF_TIER:-quick}" DEMO_TARGET="${DEMO_TARGET:-/tmp/demo-target}"
(cd /repo && bash "$OLDPWD/$b/demo.sh") >"$out/demo0" 2>&1; d0=$?
git -C /repo apply "$PWD/$b/patch.diff" || { echo "$id: does not apply"; exit 1; }
trap 'git -C /repo checkout -q -- .' EXIT
bash /opt/vp/build.sh >"$out/build" 2>&1; br=$?
bash /opt/vp/test.sh "$out/t.json" >"$out/test" 2>&1
tests=$(python3 - "$out/t.json" <<'P'
import json,sys
base=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open(sys.argv[1]))
def names(x,k):
    for c in (k,'stable','passed','pass'):
        if isinstance(x,dict) and c in x: return set(x[c])
    return set()
lost=names(base,'stable')-names(t,'passed')
print('ok' if not lost else 'LOST:'+','.join(sorted(lost))[:200])
P
)
(cd /repo && bash "$OLDPWD/$b/demo.sh") >"$out/demo1" 2>&1; d1=$?
res=
for c in "${checks[@]}"; do
    s=$SECONDS
    timeout 900 ./check.sh "$c" >"$out/$c" 2>&1; rc=$?
    v=$(grep -c "^VIOLATION property=$c " "$out/$c")
    res="$res $c:rc=$rc,v=$v,$((SECONDS-s))s"
done
echo "$id build=$br tests=$tests demo=$d0/$d1 checks:$res"
