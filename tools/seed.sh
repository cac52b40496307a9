#!/bin/bash
# seed.sh <id> <property>: confirm /verif/seeded/<id> in a scratch copy and run the property's check on it.
set -u
. /verif/env.sh
id=$1; d=/verif/seeded/$id; [ -d "$d" ] || d=/verif/seeded_slow/$id
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
w=$(mktemp -d /tmp/seedXXXX); cp -a /repo $w/repo; cd $w/repo
ok=1
bash $d/demo.sh >$w/demo0 2>&1 || { echo "$id: DEMO FAILS ON CLEAN"; tail -20 $w/demo0; ok=0; }
git apply $d/patch.diff || { echo "$id: patch does not apply"; ok=0; }
. /opt/vp/env.sh >/dev/null 2>&1
cd $w/repo; go build $PKGS || { echo "$id: no build"; ok=0; }
go test -vet=off -count=1 $PKGS >$w/test 2>&1 || { echo "$id: TESTS FAIL"; grep -- '--- FAIL' $w/test; ok=0; }
for p in $(sed -n 's,^+++ b/\(.*\)/[^/]*\.go$,./\1,p' $d/patch.diff | sort -u); do case " $PKGS " in *" $p "*) ;; *) /verif/tools/gotest.sh $w/repo $p >$w/test 2>&1 || { echo "$id: TESTS FAIL in $p"; grep -- '--- FAIL' $w/test; ok=0; };; esac; done
. /verif/env.sh
bash $d/demo.sh >$w/demo1 2>&1 && { echo "$id: DEMO PASSES WITH BUG"; ok=0; }
cd /verif
VERIF_REPO=$w/repo /verif/build/gosym check -prop $prop -tier ${2:-quick} >$w/chk 2>&1; rc=$?
echo "$id ($prop): valid=$ok check rc=$rc $(grep -c ^VIOLATION $w/chk) violation(s): $(grep ^counterexample $w/chk | head -1 | cut -c1-200)"
[ $rc = 1 ] || tail -8 $w/chk
rm -rf "$w"
