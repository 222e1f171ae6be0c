#!/bin/bash
# plant.sh ID [--notest] [PROP...]: judges one planted bug in a private copy mounted over /repo and /verif.
# Prints: demo on the unchanged tree, build, demo with the patch, stable tests lost, and each check's verdict.
ID=$1; shift
NOTEST=; [ "$1" = --notest ] && { NOTEST=1; shift; }
S=/verif/seeded/$ID
W=/tmp/sw-$ID
rm -rf "$W"; mkdir -p "$W"
cp -a /repo "$W/repo"; cp -a /verif "$W/verif"; cp -a "$S" "$W/bug"
rm -f "$W/bug/patch.diff" "$W/bug/meta.json"
git -C "$W/repo" apply "$S/patch.diff" || { echo "$ID: patch does not apply"; exit 1; }
PROPS="$*"; [ -n "$PROPS" ] || PROPS=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
(cd /repo && timeout 300 bash "$W/bug/demo.sh" >"$W/demo0.log" 2>&1); echo "$ID demo unchanged rc=$?"
cat > "$W/in.sh" <<EOF
mount --bind $W/repo /repo && mount --bind $W/verif /verif || exit 9
cd /repo
bash /opt/vp/build.sh >$W/build.log 2>&1; echo "$ID build rc=\$?"
timeout 300 bash $W/bug/demo.sh >$W/demo1.log 2>&1; echo "$ID demo patched rc=\$?"
if [ -z "$NOTEST" ]; then bash /opt/vp/test.sh $W/t.json >$W/t.log 2>&1; python3 /tmp/cmp.py $W/t.json | tr '\n' ' '; echo "<- $ID stable tests, lost"; fi
cd /verif
for p in $PROPS; do VSIM_NOSHRINK=1 VERIF_SEED=1 VERIF_TIER=quick timeout 900 ./check run \$p >$W/check-\$p.log 2>&1; echo "$ID check \$p rc=\$? \$(grep -m1 -o 'VIOLATION.*' $W/check-\$p.log | cut -c1-150)"; done
EOF
unshare -Urm bash "$W/in.sh"
[ -n "$KEEP" ] || rm -rf "$W"
