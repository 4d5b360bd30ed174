#!/bin/bash
# seeded.sh [all] [ID...]: applies each planted change to /repo, runs its property's check (all: every check), undoes it.
cd "$(dirname "$0")/.." || exit 2
all=; [ "$1" = all ] && { all=1; shift; }
git -C /repo diff --quiet || { echo "/repo is not clean"; exit 2; }
for d in ${@:-$(ls seeded)}; do
	p=$(python3 -c "import json;print(json.load(open('seeded/$d/meta.json'))['property'])")
	git -C /repo apply "$PWD/seeded/$d/patch.diff" || { echo "$d does not apply"; continue; }
	if [ -n "$all" ]; then ps=$(python3 -c "import json;print(*[json.loads(l)['id'] for l in open('properties.jsonl')])"); else ps=$p; fi
	r=
	for q in $ps; do
		./run.sh "$q" >/tmp/seeded.out 2>&1
		rc=$?
		[ $rc = 0 ] || r="$r $q($rc)"
	done
	git -C /repo checkout -q -- .
	echo "$d [$p]:${r:- MISSED}"
done
