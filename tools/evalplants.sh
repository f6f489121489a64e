#!/bin/bash
# evalplants.sh WORKER ID...   try planted bugs in a private copy (/tmp/vw.WORKER) of /repo and /verif.
# For each: applies, builds, passes the stable tests, the demo tells them apart, the property's check catches it.
# RESULTS=FILE collects one line per bug.  CHECKS="C01 C02" runs these checks instead of the property's own.
# SEEDED=DIR takes the changes from there; SKIP=1 leaves out the tests and the demo.
# KEEP=1 keeps the copy.
set -u
w=/tmp/vw.$1; shift
results=${RESULTS:-/tmp/plants.results}
mkdir -p $w
[ -d $w/repo ] || cp -a /repo $w/repo
git -C $w/repo checkout -q -- . 
git -C $w/repo fetch -q /repo HEAD && git -C $w/repo reset -q --hard FETCH_HEAD
mkdir -p $w/verif
rsync -a --delete --exclude seeded --exclude .git --exclude target --exclude evidence --exclude replays /verif/ $w/verif/ 2>/dev/null || { for f in check.sh known_findings.txt harness; do rm -rf -- "$w/verif/$f"; cp -a /verif/$f $w/verif/; done; }
[ -d $w/verif/target ] || cp -a /verif/target $w/verif/target
mkdir -p $w/verif/evidence $w/verif/replays
grep -rl '/repo' $w/verif/check.sh $w/verif/harness/Cargo.toml $w/verif/harness/src | xargs sed -i "s#/repo\b#$w/repo#g"
sed "s#/repo\b#$w/repo#g" /opt/vp/test.sh > $w/test.sh
for id in "$@"; do
	dir=${SEEDED:-/verif/seeded}/$id
	prop=$(python3 -c 'import json,sys; print(json.load(open(sys.argv[1]))["property"])' $dir/meta.json)
	rm -rf -- "$w/demo"; mkdir $w/demo; cp $dir/demo.* $w/demo/
	line="$id $prop"
	cd $w/repo
	if [ -z "${SKIP:-}" ]; then
		if ! bash $w/demo/demo.sh > $w/demo.good 2>&1; then echo "$line DEMO-FAILS-UNCHANGED: $(grep -a -m3 -E 'panicked|left|right|error' -A1 $w/demo.good | tr '\n' ' ' | cut -c1-300)" | tee -a $results; continue; fi
	fi
	if ! git apply $dir/patch.diff; then echo "$line NO-APPLY" | tee -a $results; continue; fi
	if [ -z "${SKIP:-}" ]; then
		bash $w/test.sh $w/out.json > $w/test.log 2>&1
		bad=$(python3 - $w/out.json <<'PY'
import json,sys
want=json.load(open('/opt/vp/BASELINE.json'))['stable']
try: got=json.load(open(sys.argv[1]))
except Exception as e: print('nothing'); sys.exit()
passed=set(got.get('passed') or got.get('pass') or [])
missing=[t for t in want if t not in passed]
print(len(missing), *missing[:2]) if missing else None
PY
)
		if [ -n "$bad" ]; then echo "$line TESTS-FAIL $bad" | cut -c1-200 | tee -a $results; git checkout -q -- .; continue; fi
		if bash $w/demo/demo.sh > $w/demo.bad 2>&1; then echo "$line DEMO-PASSES-PATCHED" | tee -a $results; git checkout -q -- .; continue; fi
		if grep -q '^error' $w/demo.bad; then echo "$line DEMO-NO-BUILD" | tee -a $results; git checkout -q -- .; continue; fi
	fi
	for check in ${CHECKS:-$prop}; do
		start=$(date +%s)
		(cd $w/verif && VERIF_SEED=${SEED:-1} timeout 900 ./check.sh $check quick) > $w/check.$id.$check.log 2>&1
		rc=$?
		took=$(( $(date +%s) - start ))
		if [ $rc = 1 ] && grep -q "^VIOLATION property=$check " $w/check.$id.$check.log; then echo "$id $check CAUGHT ${took}s $(grep -a -m1 -v -E 'VIOLATION|slow' $w/check.$id.$check.log | cut -c1-120)"; else echo "$id $check MISSED rc=$rc ${took}s"; fi | tee -a $results
	done
	git checkout -q -- .
done
[ -n "${KEEP:-1}" ] || rm -rf -- "$w"
