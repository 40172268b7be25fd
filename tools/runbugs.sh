#!/bin/bash
# runbugs.sh [-a] ID... : runs the check of the property (-a: all checks) against planted bugs, in scratch copies
# of /repo and /verif. Prints one line for every bug and check. WORK (default /tmp/w/rb) is the scratch place.
HERE=$(cd "$(dirname "$0")/.." && pwd)
W=${WORK:-/tmp/w/rb}; mkdir -p "$W"
ALL=; [ "$1" = -a ] && { ALL=1; shift; }
rm -rf "$W/repo" "$W/verif"
cp -a /repo "$W/repo"
mkdir "$W/verif"; cp -r "$HERE"/{check.sh,harness,known-findings.jsonl} "$W/verif/"
mkdir -p "$W/verif/evidence" "$W/verif/replays"
sed -i "s,^REPO=/repo,REPO=$W/repo," "$W/verif/check.sh"
sed -i "s,=> /repo,=> $W/repo," "$W/verif/harness/go.mod"
for id in "$@"; do
	id=$(basename "$id")
	d="$HERE/seeded/$id"
	prop=$(python3 -c "import json,sys; print(json.load(open('$d/meta.json'))['property'])")
	props=$prop; [ -n "$ALL" ] && props=$(seq -f C%02g 1 ${NPROPS:-18})
	git -C "$W/repo" checkout -q -- . && git -C "$W/repo" apply "$d/patch.diff" || { echo "$id APPLY-FAILED"; continue; }
	for p in $props; do
		s=$(date +%s)
		VERIF_SEED=${VERIF_SEED:-1} timeout 900 bash "$W/verif/check.sh" $p quick >"$W/out.txt" 2>&1; rc=$?
		v=$(grep -c "^VIOLATION property=$p " "$W/out.txt")
		echo "$id $p rc=$rc violations=$v $(( $(date +%s) - s ))s $( [ $rc = 1 ] && [ $v -gt 0 ] && echo CAUGHT || echo missed )"
		cp "$W/out.txt" "$W/out-$id-$p.txt"
	done
done
git -C "$W/repo" checkout -q -- .
