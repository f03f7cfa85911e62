#!/bin/bash
# seed.sh NAME PROPERTY: /tmp/scr (a copy of /repo) holds the edited tree, /tmp/seed_main.rs the demonstration,
# /tmp/seed_needs and /tmp/seed_breaks the two texts. Confirms the bug and stores it under seeded/NAME.
N="$1"; P="$2"; V=/verif; T=$V/seeded/$N
cd /tmp/scr || exit 1
rm -rf /tmp/seedtmp; mkdir -p /tmp/seedtmp
git diff -- src > /tmp/seedtmp/patch.diff
[ -s /tmp/seedtmp/patch.diff ] || { echo "no diff"; exit 1; }
cp $V/tools/seedlib/demo.sh $V/tools/seedlib/Cargo.lock /tmp/seedtmp/ 
cp /tmp/seed_main.rs /tmp/seedtmp/main.rs
export DEMO_TARGET=/tmp/seed_target
bash /tmp/seedtmp/demo.sh > /tmp/seedtmp/out1 2>&1; r1=$?
(export HOME=/root CARGO_INCREMENTAL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only RUSTC_WRAPPER= RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true; timeout 600 cargo test --workspace --lib --tests --no-fail-fast --offline > /tmp/seedtmp/tests 2>&1); rt=$?
git checkout -q -- src
bash /tmp/seedtmp/demo.sh > /tmp/seedtmp/out0 2>&1; r0=$?
echo "with patch: $r1 ($(tail -1 /tmp/seedtmp/out1)); unchanged: $r0 ($(tail -1 /tmp/seedtmp/out0)); tests $rt"
if [ $r1 -ne 0 ] && [ $r1 -ne 3 ] && [ $r0 -eq 0 ] && [ $rt -eq 0 ]; then
  mkdir -p $T
  cp /tmp/seedtmp/patch.diff /tmp/seedtmp/demo.sh /tmp/seedtmp/main.rs /tmp/seedtmp/Cargo.lock $T/
  python3 - "$P" <<PY > $T/meta.json
import json,sys
print(json.dumps({"property":sys.argv[1],"needs":open("/tmp/seed_needs").read().strip(),"what_it_breaks":open("/tmp/seed_breaks").read().strip()},indent=1))
PY
  echo "stored $N"
else
  git apply /tmp/seedtmp/patch.diff; grep -A6 '^error' /tmp/seedtmp/out1 | head -40; head -5 /tmp/seedtmp/out1; grep -E "FAILED|error|panicked" /tmp/seedtmp/tests | head
fi
