#!/bin/bash
# tools/checkseed.sh SEED [ID...]: applies a planted bug to /repo, builds, tests, runs its demo and
# checks (default: its own property's), and undoes it.
S=/verif/seeded/$1; shift
P=${*:-$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")}
cd /repo || exit 2
[ -z "$(git status --porcelain)" ] || { echo "/repo is not clean"; exit 2; }
D=$(mktemp -d /tmp/seed_XXXXXX)
for f in "$S"/*; do case $f in *.diff|*.patch|*/meta.json) ;; *) cp -a "$f" "$D/";; esac; done
bash /opt/vp/build.sh >/dev/null 2>&1
timeout 300 bash "$D/demo.sh" >/tmp/demo_clean.log 2>&1; clean=$?
git apply "$S/patch.diff" || exit 2
bash /opt/vp/build.sh >/tmp/seed_build.log 2>&1; b=$?
bash /opt/vp/test.sh /tmp/seed_test.json >/tmp/seed_test.log 2>&1; t=$(python3 -c "
import json;print(len(json.load(open('/tmp/seed_test.json'))['passed']))")
timeout 300 bash "$D/demo.sh" >/tmp/demo_bug.log 2>&1; bug=$?
out=""
for p in $P; do (cd /verif && timeout 900 python3 run.py $p quick >/tmp/seed_$p.log 2>&1); rc=$?; out="$out $p=$rc"; grep -m1 VIOLATION /tmp/seed_$p.log; done
git apply -R "$S/patch.diff"; git checkout -q -- .
rm -rf "$D"
bash /opt/vp/build.sh >/dev/null 2>&1
v=BAD; [ $clean = 0 ] && [ $b = 0 ] && [ "$t" = 6 ] && [ $bug != 0 ] && v=COUNTS
echo "$(basename $S): $v demo clean=$clean bug=$bug build=$b tests=$t checks:$out"
