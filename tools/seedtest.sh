#!/bin/bash
# tools/seedtest.sh ID [notest] [nocheck]: validate a planted bug in private bind-mounted copies of /repo and /verif.
# Prints: demo on clean tree, build/tests/demo with the patch, result of the property's quick check.
ID=$1; shift; OPTS=" $* "
S=/verif/seeded/$ID
P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
D=$(mktemp -d /tmp/seedtest.XXXXXX)
trap 'rm -rf "$D"' EXIT
cp -a /repo "$D/repo"; mkdir "$D/verif"; cp -a /verif/{harness,run.sh,known_findings.json,MANIFEST.json,properties.jsonl} "$D/verif/"
git -C "$D/repo" checkout -q -- . ; mkdir "$D/demo"; cp -r "$S/." "$D/demo/"; rm -f "$D"/demo/*.diff "$D"/demo/meta.json
cat > "$D/go.sh" <<G
mount --bind "$D/repo" /repo && mount --bind "$D/verif" /verif || exit 9
cd /repo
if [[ "$OPTS" != *" nodemo "* ]]; then
timeout 300 bash "$D/demo/demo.sh" >"$D/d0" 2>&1; echo "$ID demo clean rc=\$? (want 0)"
fi
git apply "$S0/patch.diff" || { echo "$ID PATCH DOES NOT APPLY"; exit 1; }
if [[ "$OPTS" != *" nodemo "* ]]; then
timeout 300 bash "$D/demo/demo.sh" >"$D/d1" 2>&1; echo "$ID demo patched rc=\$? (want !=0): \$(tail -1 $D/d1)"
fi
if [[ "$OPTS" != *" notest "* ]]; then
bash /opt/vp/build.sh >/dev/null 2>&1; echo "$ID build rc=\$?"
bash /opt/vp/test.sh "$D/out.json" >"$D/t" 2>&1
python3 - <<'Q'
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); o=set(json.load(open('$D/out.json'))['passed'])
print('$ID tests: missing', sorted(b-o))
Q
fi
if [[ "$OPTS" != *" nocheck "* ]]; then
cd /verif; VERIF_SEED=1 VERIF_TIER=quick bash run.sh $P quick > "$D/c" 2>&1; rc=\$?
echo "$ID check $P rc=\$rc (want 1): \$(grep -v VIOLATION $D/c | tail -3 | cut -c1-300)"
fi
G
mkdir -p "$D/s"; cp "$S/patch.diff" "$D/s/"; sed -i "s#\$S0#$D/s#" "$D/go.sh"; sed -i "s#/patch.diff#/patch.diff#" "$D/go.sh"
S0="$D/s"; sed -i "s#\"/patch.diff\"#\"$D/s/patch.diff\"#" "$D/go.sh"
unshare -m bash "$D/go.sh"
