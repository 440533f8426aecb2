#!/bin/bash
# sweep.sh [ID...]: runs the quick check of its property against every planted change (applied to /repo and
# undone again) and records in tools/sweep.json which ones are caught. Not a check; for development.
cd "$(dirname "$0")/.." || exit 1
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo is not clean"; exit 1; }
trap 'git -C /repo checkout -q -- .' EXIT
ids=("$@"); [ $# = 0 ] && ids=($(ls seeded))
for b in "${ids[@]}"; do
	D=$PWD/seeded/$b
	P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
	git -C /repo apply "$D/patch.diff" || { echo "$b does not apply"; continue; }
	out=$(timeout 900 bash run.sh "$P" quick 2>&1); rc=$?
	git -C /repo checkout -q -- .
	k=$(grep -m1 -oE '^C[0-9]+ case -?[0-9]+: [a-z-]+' <<<"$out")
	echo "$b $P exit $rc $k"
	python3 - "$b" "$P" "$rc" "$k" <<'P'
import json,sys,os
f='tools/sweep.json'
d=json.load(open(f)) if os.path.exists(f) else {}
d[sys.argv[1]]={'property':sys.argv[2],'caught':sys.argv[3]=='1','how':sys.argv[4].split(': ')[-1]}
json.dump(dict(sorted(d.items())),open(f,'w'),indent=1)
P
done
