#!/bin/bash
# seedtest.sh ID [CHECK...]: demo without/with the patch in a clone, then the given checks against the clone
# (the checks run with VERIF_REPO pointing at the patched clone; by hand only)
id=$1; shift
d=/verif/seeded/$id
w=$(mktemp -d /tmp/seedXXXX)
git clone -q ${SEEDREPO:-/repo} $w/r
cp -a $d $w/demo; rm -f $w/demo/*.diff $w/demo/meta.json
cd $w/r
PYTHONDONTWRITEBYTECODE=1 timeout 300 bash $w/demo/demo.sh > $w/o1 2>&1; a=$?
git apply $d/patch.diff || echo "PATCH DOES NOT APPLY"
PYTHONDONTWRITEBYTECODE=1 timeout 300 bash $w/demo/demo.sh > $w/o2 2>&1; b=$?
echo "$id demo: clean=$a patched=$b"
[ $a = 0 ] || tail -5 $w/o1
[ $b != 0 ] || tail -5 $w/o2
[ -n "$SHOW" ] && tail -5 $w/o2
for c in "$@"; do
  VERIF_REPO=$w/r /opt/venv/bin/python /verif/run.py $c quick > $w/oc 2>&1; echo "$id $c rc=$?"; grep -A2 VIOLATION $w/oc | head -6; grep HARNESS -A8 $w/oc | head -12
done
cd /; rm -rf "$w"
