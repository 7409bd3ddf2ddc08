# try.sh BUGID... : run the property's check against a scratch copy with each planted bug
for b in "$@"; do
p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$b/meta.json'))['property'])")
d=/tmp/try/$b; mkdir -p /tmp/try; cp -a /repo $d; git -C $d checkout -q -- .
git -C $d apply /verif/seeded/$b/patch.diff || { echo "$b: no apply"; continue; }
( cd /verif; s=$(date +%s); out=$(SX_REPO=$d timeout 900 python3-vt run.py $p --budget 400 2>&1); rc=$?; e=$(date +%s); echo "$b $p rc=$rc $((e-s))s $(echo "$out" | grep -m1 counterex)"; [ $rc = 1 ] || echo "$out" | tail -3 )
rm -rf /tmp/try/$b
done
