#!/bin/bash
# mkseed.sh ID PROPERTY NEEDS BREAKS < main.rs : takes /repo's uncommitted change as the patch
set -e
d=/verif/seeded/$1
mkdir -p $d
git -C /repo diff > $d/patch.diff
[ -s $d/patch.diff ] || { echo "no change"; exit 1; }
git -C /repo checkout -q -- .
cat > $d/main.rs
cp /verif/tools/seedkit/demo.sh /verif/tools/seedkit/demo.lock $d/
python3 - "$d" "$2" "$3" "$4" <<'P'
import json,sys
json.dump({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},open(sys.argv[1]+"/meta.json","w"),indent=1)
P
