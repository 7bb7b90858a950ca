#!/bin/bash
# dev/plants.sh [-n] ID...: confirm seeded changes in a scratch copy (joint build+tests unless -n; per-plant demo and check).
S=/tmp/mut/plant; NB=0; [ "$1" = -n ] && { NB=1; shift; }
mkdir -p $S /tmp/mut/demo
rsync -rlpc --delete --exclude .git --exclude _build --exclude build /repo/ $S/repo/
git -C $S/repo init -q 2>/dev/null
if [ $NB = 0 ]; then
  for i in "$@"; do (cd $S/repo && git apply /verif/seeded/$i/patch.diff) || echo "$i: JOINT APPLY FAILED"; done
  for f in build test; do sed "s#/repo#$S/repo#g; s#/opt/vp/build.sh#$S/build.sh#g" /opt/vp/$f.sh > $S/$f.sh; done
  bash $S/test.sh $S/t.json > $S/t.log 2>&1; grep -m5 -E "error:|FAILED" $S/t.log
  python3 - $S/t.json <<'P'
import json,sys
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); d=json.load(open(sys.argv[1])); p=set(d['passed'])
print("joint tests: baseline %d, passing %d, missing %s" % (len(b), len(b&p), sorted(b-p)[:10]))
P
  rsync -rlpc --delete --exclude .git --exclude _build --exclude build /repo/ $S/repo/
fi
for i in "$@"; do
  P=$(python3 -c "import json;print(json.load(open('/verif/seeded/$i/meta.json'))['property'])")
  rm -rf /tmp/mut/demo/$i; mkdir -p /tmp/mut/demo/$i; cp /verif/seeded/$i/* /tmp/mut/demo/$i/; rm -f /tmp/mut/demo/$i/patch.diff /tmp/mut/demo/$i/meta.json
  (cd $S/repo && timeout 300 bash /tmp/mut/demo/$i/demo.sh >/tmp/mut/demo/$i.a 2>&1); A=$?
  (cd $S/repo && git apply /verif/seeded/$i/patch.diff) || echo "$i APPLY FAILED"
  (cd $S/repo && timeout 300 bash /tmp/mut/demo/$i/demo.sh >/tmp/mut/demo/$i.b 2>&1); B=$?
  MML_REPO=$S/repo VERIF_EVID=/tmp/mut/ev python3 /verif/check.py $P > /tmp/mut/demo/$i.c 2>&1; C=$?
  echo "$i ($P): demo clean=$A patched=$B check=$C $(grep -m1 '^  ' /tmp/mut/demo/$i.c | cut -c1-160)"
  [ $A != 0 ] && tail -n 4 /tmp/mut/demo/$i.a
  (cd $S/repo && git apply -R /verif/seeded/$i/patch.diff)
done
