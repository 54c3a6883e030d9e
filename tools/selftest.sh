#!/bin/bash
# selftest.sh: runs small programs with known sets of outcomes through the
# instrumenter, the scheduler, the shims and the race build, and compares.
# Works in scratch copies; no check uses it.
cd "$(dirname "$0")" || exit 1
T=$(mktemp -d /tmp/log4g-self.XXXXXX) || exit 1
[ -n "${KEEPSELF:-}" ] || trap 'rm -rf "$T"' EXIT
git clone -q /repo "$T/repo" && mkdir -p "$T/repo/internal/zzself" "$T/verif" "$T/out"
cp selftest/prog.go.in "$T/repo/internal/zzself/prog.go"
printf "package log4g\n\nimport _ \"github.com/xtfly/log4g/internal/zzself\"\n" > "$T/repo/zzself.go"
cp -r ../mc ../run.sh "$T/verif/"
: > "$T/verif/known_findings.jsonl"
cp selftest/self.go.in "$T/verif/mc/x/harness/zzself.go"
mkdir -p "$T/verif/replays" "$T/verif/evidence"
export REPO=$T/repo SELFOUT=$T/out
bad=0
for p in S01 S02; do
	out=$("$T/verif/run.sh" $p 2>&1) || { echo "$out"; bad=1; }
	grep "scenarios," <<<"$out"
done
cat "$T"/out/* | sort -u > "$T/outcomes"
if [ "${1:-}" = -w ]; then cp "$T/outcomes" selftest/outcomes.txt; fi
diff selftest/outcomes.txt "$T/outcomes" || bad=1
# every faulty and racy program must be reported, by itself
KEEP=1 "$T/verif/run.sh" S01 -scn once > "$T/keep" 2>&1
H=$(sed -n 's/^kept //p' "$T/keep")
n=0
while IFS= read -r s; do
	p=${s%%/*} name=${s#*/}
	name=$(sed 's/ *race=.*//' <<<"$name")
	out=$("$T/verif/run.sh" "$p" -scn "^$name\$" 2>&1)
	rc=$?
	msg=$(grep -m1 "^$p: " <<<"$out")
	n=$((n+1))
	case $p in
	S03) want=${name#faulty }; want=${want%% *}; [ $rc = 1 ] && [[ $msg == *"$want"* ]] || { echo "NOT REPORTED: $name: rc=$rc $msg"; bad=1; } ;;
	S04) [ $rc = 1 ] && [[ $msg == *"data race"* ]] || { echo "NOT REPORTED: $name: rc=$rc $msg"; bad=1; } ;;
	S05) [ $rc = 0 ] || { echo "FALSE ALARM: $name: $out"; bad=1; } ;;
	esac
done < <("$H/harness" -list | grep '^S0[345]/')
case $H in /dev/shm/log4g-mc.*|/tmp/log4g-mc.*) rm -rf "$H";; esac
echo "$(sed 's/: .*//' "$T/outcomes" | sort -u | wc -l) programs with $(wc -l < "$T/outcomes") outcomes, $n programs that must or must not be reported: $([ $bad = 0 ] && echo all as expected || echo DIFFERENCES)"
exit $bad
