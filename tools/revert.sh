#!/bin/bash
# revert.sh [COMMIT...]: for every repaired finding of known_findings.jsonl,
# takes the repair out of a scratch copy of /repo and runs the check named for
# it, which must report a VIOLATION. Development tool; no check uses it.
cd "$(dirname "$0")/.." || exit 1
T=$(mktemp -d /tmp/log4g-revert.XXXXXX) || exit 1
trap 'rm -rf "$T"' EXIT
python3 - "$@" <<'P' > "$T/list"
import json, sys
seen = []
for l in open('known_findings.jsonl'):
    j = json.loads(l)
    p, c = j.get('property'), j.get('commit', '')
    if c and (p, c) not in seen and (len(sys.argv) < 2 or c in sys.argv[1:]):
        seen.append((p, c)); print(c, p)
P
bad=0
while read -r c p; do
	rm -rf "$T/repo"
	git clone -q /repo "$T/repo"
	how=reverted
	if ! (cd "$T/repo" && git -c user.name=x -c user.email=x@x revert --no-edit "$c" >/dev/null 2>&1); then
		(cd "$T/repo" && git revert --abort 2>/dev/null; git checkout -q "$c^")
		how="tree before it"
	fi
	out=$(REPO=$T/repo ./run.sh "$p" 2>&1 </dev/null)
	rc=$?
	if [ $rc = 1 ] && grep -q "^VIOLATION property=$p " <<<"$out"; then r=detected; else r="NOT DETECTED (exit $rc)"; bad=1; fi
	echo "$c $p $how: $r: $(grep -m1 "^$p: " <<<"$out" | cut -c1-150)"
done < "$T/list"
exit $bad
