#!/bin/bash
# trybug.sh ID...: applies each planted bug, runs its property's check (or $PROPS), restores /repo.
for id in "$@"; do
	d=/verif/seeded/$id
	prop=${PROPS:-$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")}
	git -C /repo apply "$d/patch.diff" || { echo "$id: does not apply"; continue; }
	for p in $prop; do
		out=$(cd /verif && bin/check "$p" 2>&1); rc=$?
		if [ $rc = 1 ] && grep -q "^VIOLATION property=$p " <<<"$out"; then echo "$id: caught by $p"; else echo "$id: NOT caught by $p (exit $rc)"; tail -5 <<<"$out"; fi
	done
	git -C /repo checkout -q -- .
done
