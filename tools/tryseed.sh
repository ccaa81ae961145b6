#!/bin/bash
# tools/tryseed.sh ID [notests] [check]: validate one planted bug in a private mount namespace over a scratch copy of /repo.
id=$1; d=/tmp/seed/$id.$$; mkdir -p $d; cp -a /repo $d/repo
s=/verif/seeded/$id
export HOME=/root PATH=/opt/venv/bin:$PATH
unshare -Urm bash -c '
d=$1; s=$2; shift 2
mount --bind $d/repo /repo; cd /repo
cp -r $s $d/demo; rm -f $d/demo/*.diff $d/demo/meta.json
timeout 300 bash $d/demo/demo.sh > $d/demo0.log 2>&1; echo "clean demo rc=$?"
git apply --check $s/patch.diff && git apply $s/patch.diff || { echo APPLY-FAILED; exit; }
timeout 300 bash $d/demo/demo.sh > $d/demo1.log 2>&1; echo "patched demo rc=$?"; tail -2 $d/demo1.log
for a in "$@"; do case $a in
 notests) nt=1;;
 *) cd /repo; out=$(timeout 900 env VERIF_SEED=1 VERIF_TIER=quick /verif/check $a 2>&1); echo "check $a rc=$?"; echo "$out" | grep -E -A1 "^VIOLATION" | head -6 | cut -c1-300;;
esac; done
if [ -z "$nt" ]; then bash /opt/vp/test.sh $d/t.json > $d/t.log 2>&1; /opt/venv/bin/python /tmp/w/cmp.py $d/t.json; fi
' x $d $s "${@:2}"
rm -rf "$d"
