#!/bin/bash
# bugtry.sh <id> [t d c]: in private copies (user and mount namespace) of /repo and /verif, apply the planted
# bug, then run the stable tests (t), the demo (d; on both trees), the check of its property (c).
ID=$1; WHAT=${2:-dct}
S=/verif/seeded/$ID
P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
W=/tmp/bug_$ID
mkdir -p $W; rm -rf /tmp/bug_$ID/repo /tmp/bug_$ID/verif /tmp/bug_$ID/demo
cp -a /repo $W/repo; git -C $W/repo checkout -q -- .
mkdir $W/verif; (cd /verif && tar cf - --exclude=./_build --exclude=./.git --exclude=./seeded . ) | tar xf - -C $W/verif
mkdir -p $W/verif/_build; [ -d /verif/_build/obj ] && cp -a /verif/_build/obj $W/verif/_build/obj
cp -a $S $W/demo; rm -f $W/demo/patch.diff
ns() { unshare -Urmn bash -c "ip link set lo up; mount --bind $W/repo /repo; mount --bind $W/verif /verif; cd /repo; $1"; }
R=""
if [[ $WHAT == *d* ]]; then
  ns "bash $W/demo/demo.sh" > $W/demo0.log 2>&1; R="$R demo-clean=$?"
fi
git -C $W/repo apply $S/patch.diff || { echo "$ID: patch does not apply"; exit 1; }
if [[ $WHAT == *d* ]]; then
  ns "bash $W/demo/demo.sh" > $W/demo1.log 2>&1; R="$R demo-bug=$?"
fi
if [[ $WHAT == *c* ]]; then
  for p in ${CHECKS:-$P}; do
  ns "cd /verif; VERIF_SEED=1 VERIF_TIER=quick timeout 900 ./check $p quick" > $W/check_$p.log 2>&1; R="$R check($p)=$? $(grep -c '^VIOLATION' $W/check_$p.log)"
  done
fi
if [[ $WHAT == *t* ]]; then
  ns "bash /opt/vp/test.sh $W/out.json" > $W/test.log 2>&1
  R="$R tests: $(python3 -c "
import json
b=json.load(open('/opt/vp/BASELINE.json'))
def names(x):
    return x['stable']
o=json.load(open('$W/out.json'))
m=[n for n in names(b) if n not in o['passed']]
print(len(m),'missing',m[:4])")"
fi
echo "$ID:$R" | tee -a /tmp/plant/results.txt
rm -rf /tmp/bug_$ID/repo /tmp/bug_$ID/verif /tmp/bug_$ID/demo
