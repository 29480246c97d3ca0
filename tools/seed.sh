#!/bin/bash
# dev: seed.sh ID PROPERTY "needs" "breaks" -- the change is in /tmp/mrepo; demo.c (or demo.sh) is in seeded/ID
id=$1; p=$2; s=/verif/seeded/$id; mkdir -p $s
git -C /tmp/mrepo diff > $s/patch.diff
[ -f $s/demo.sh ] || cp /verif/tools/demo/${KIND:-server}.sh $s/demo.sh
[ -f $s/demo.c ] && cp /verif/tools/demo/demo.h $s/demo.h
python3 - "$s" "$p" "$3" "$4" <<'P'
import json,sys
json.dump({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},open(sys.argv[1]+"/meta.json","w"),indent=1)
P
[ -s $s/patch.diff ] || echo "EMPTY PATCH"
git -C /repo apply --check $s/patch.diff || exit 1
(cd /repo && bash $s/demo.sh > /tmp/seed.o1 2>&1); a=$?
(cd /tmp/mrepo && bash $s/demo.sh > /tmp/seed.o2 2>&1); b=$?
echo "$id: unchanged rc=$a  patched rc=$b"; [ $a = 0 ] || cat /tmp/seed.o1; tail -3 /tmp/seed.o2
[ -n "$NOCHECK" ] || { VERIF_REPO=/tmp/mrepo timeout 900 python3 /verif/tools/check.py ${CHK:-$p} $ONLY 2>&1 | grep -E "VIOLATION|INCONC|KNOWN" | cut -c1-250; }
git -C /tmp/mrepo checkout -q -- .
