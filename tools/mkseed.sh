#!/bin/bash
# mkseed.sh ID PROPERTY "needs" "what": turns /repo's uncommitted change into seeded/ID/patch.diff and undoes it
D=/verif/seeded/$1; mkdir -p $D
git -C /repo diff > $D/patch.diff; git -C /repo checkout -- .
python3 - "$D" "$2" "$3" "$4" <<'P'
import json,sys
json.dump({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},open(sys.argv[1]+"/meta.json","w"),indent=1)
P
wc -l $D/patch.diff
