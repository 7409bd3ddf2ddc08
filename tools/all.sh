# all.sh [tier] [ids...] : run the checks one after another, strictly
tier=${1:-quick}; shift
[ $# = 0 ] && set -- $(seq -f C%02g 1 43)
for p in "$@"; do s=$(date +%s); out=$(SX_STRICT=1 timeout 3600 python3-vt run.py $p --tier $tier 2>&1); rc=$?; echo "$p rc=$rc $(( $(date +%s) - s ))s $(echo "$out" | grep -m1 "$p $tier" | cut -c1-150)"; [ $rc = 0 ] || echo "$out" | tail -4; done
