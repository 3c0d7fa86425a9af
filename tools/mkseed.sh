#!/bin/bash
# mkseed.sh ID PROP PKGDIR "needs" "what": take the diff of /tmp/seedwt (a copy of /repo) and /tmp/demo_test.go
set -eu
id=$1 prop=$2 pkg=$3 needs=$4 what=$5
d=/verif/seeded/$id; mkdir -p $d
git -C /tmp/seedwt diff > $d/patch.diff
git -C /tmp/seedwt checkout -q -- .
cp /tmp/demo_test.go $d/demo_test.go
cat > $d/demo.sh <<X
#!/bin/bash
# exit 0 when the behaviour is right
d=\$(cd "\$(dirname "\$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
t=\$(mktemp -d); trap 'rm -rf "\$t"' EXIT
printf '{"Replace": {"%s/$pkg/zz_demo_test.go": "%s/demo_test.go"}}' "\$PWD" "\$d" > "\$t/ov.json"
go test ${RACE:+-race }-vet=off -overlay "\$t/ov.json" -run '^TestZZDemo\$' -count=1 -timeout 120s ./$pkg
X
python3 - "$d/meta.json" "$prop" "$needs" "$what" <<'P'
import json,sys
json.dump({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},open(sys.argv[1],"w"),indent=1)
P
