#!/bin/bash
# tools/mkdemo.sh ID PROP "crates" "needs" "what" < main.rs
S=/verif/seeded/$1; mkdir -p $S; cat > $S/main.rs
sed -e "s#@CRATES@#$3#" -e "s#@EXTRA@#${6:-:}#" /verif/tools/demo_template.sh > $S/demo.sh; chmod +x $S/demo.sh
python3 - "$S" "$2" "$4" "$5" <<'P'
import sys,json
json.dump({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},open(sys.argv[1]+'/meta.json','w'),indent=1)
P
