#!/bin/bash
# new.sh NAME PROPERTY "needs" "breaks" ; demo test body (Go file without header) on stdin; patch from /tmp/seedwork diff
n=$1; d=/verif/seeded/$n; mkdir -p $d
cp /tmp/mk/demo.sh $d/demo.sh; chmod +x $d/demo.sh
[ -n "$RACE" ] && sed -i 's/go test -vet=off $RACE/go test -vet=off -race/' $d/demo.sh
sed -i 's/ $RACE / /' $d/demo.sh
(cat /tmp/mk/helper.go; echo; cat) > $d/demo_test.go
python3 - "$2" "$3" "$4" > $d/meta.json <<'P'
import json,sys
print(json.dumps({"property":sys.argv[1],"needs":sys.argv[2],"what_it_breaks":sys.argv[3]},indent=1))
P
git -C /tmp/seedwork diff > $d/patch.diff
git -C /tmp/seedwork checkout -q -- .
[ -s $d/patch.diff ] || echo EMPTY PATCH
