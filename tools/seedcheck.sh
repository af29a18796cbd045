#!/bin/bash
# seedcheck.sh ID [PROP...]: runs checks against a planted bug in private copies of /repo and /verif.
ID=$1; shift
P=${*:-$(python3 -c "import json;print(json.load(open('/verif/seeded/$ID/meta.json'))['property'])")}
D=/tmp/sc/$ID; rm -rf /tmp/sc/"$ID"; mkdir -p "$D"
cp -a /repo "$D/repo"; cp -a /verif "$D/verif"; git -C "$D/repo" apply /verif/seeded/"$ID"/patch.diff || exit 9
cat > "$D/inner.sh" <<'I'
D=$1; shift
mount --bind "$D/repo" /repo && mount --bind "$D/verif" /verif || exit 9
cd /verif
for p in "$@"; do VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=quick timeout 900 python3 check.py $p quick > "$D/$p.log" 2>&1; echo "$p exit $? $(grep -c VIOLATION "$D/$p.log") $(tail -3 "$D/$p.log" | tr '\n' ' ' | cut -c1-300)"; done
I
unshare -Urm bash "$D/inner.sh" "$D" $P 2>&1 | sed "s/^/$ID: /"
rm -rf /tmp/sc/"$ID"/repo /tmp/sc/"$ID"/verif
