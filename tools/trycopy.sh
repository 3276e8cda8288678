#!/bin/bash
# trycopy.sh ID [CHECK...]: like trybug.sh, but in a copy (/tmp/tc), so that /repo stays as it is; any check but C21.
ID=$1; shift # a planted bug or a patch file, then name the checks
CHECKS=${*:-$(python3 -c "import json;print(json.load(open('/verif/seeded/$ID/meta.json'))['property'])")}
R=/tmp/tc
mkdir -p $R/repo $R/harness
rsync -a --delete --exclude target --exclude .git /repo/ $R/repo/ 2>/dev/null || { rm -rf /tmp/tc/repo; mkdir -p $R/repo; (cd /repo && tar c --exclude ./target --exclude ./.git .) | tar x -C $R/repo; }
[ -d $R/vendor ] || cp -a /verif/vendor $R/vendor
(cd /verif/harness && tar c .) | tar x -C $R/harness
sed -i "s#path = \"/repo\"#path = \"$R/repo\"#" $R/harness/Cargo.toml
(cd $R/repo && patch -p1 -s < $([ -f "$ID" ] && echo "$ID" || echo /verif/seeded/$ID/patch.diff)) || exit 9
find $R/repo/src -name '*.rs' | xargs touch
export VERIF_DIR=$R VERIF_SEED=${SEED:-1} VERIF_TIER=${TIER:-quick}
(cd $R/harness && CARGO_TARGET_DIR=$R/t RUSTFLAGS="--cfg qesa_hooks --cap-lints allow" cargo build --release --offline > $R/log 2>&1) || { tail -20 $R/log; exit 8; }
for c in $CHECKS; do
  echo "$ID $c $(timeout 900 $R/t/release/vp check $c 2>&1 | tail -2 | cut -c1-220 | tr '\n' ' ')"
done
