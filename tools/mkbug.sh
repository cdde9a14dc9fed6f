#!/bin/bash
# mkbug.sh ID PROP "needs" "breaks": saves /repo's uncommitted diff as a planted bug and undoes it.
# The demo test is read from stdin.
d=/verif/seeded/$1; mkdir -p "$d"
git -C /repo diff > "$d/patch.diff"
git -C /repo checkout -- .
cp /verif/tools/demo/lib_test.go /verif/tools/demo/demo.sh "$d/"
cat > "$d/demo_test.go"
python3 - "$@" <<'P' > "$d/meta.json"
import json,sys
print(json.dumps(dict(property=sys.argv[2],needs=sys.argv[3],what_it_breaks=sys.argv[4]),indent=1))
P
test -s "$d/patch.diff" || echo "EMPTY PATCH"
python3 /verif/tools/seed.py verify "$1"
