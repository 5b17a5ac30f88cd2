#!/bin/bash
# Usage: ./check.sh <property id>   (VERIF_TIER=quick|thorough, VERIF_SEED)
# Builds the code under test from /repo's working tree, runs the check of one property.
# Exit 0: held on everything explored. Exit 1 + VIOLATION line: broken. Else: error of the check.
set -u
id="${1:?property id}"
here="$(cd "$(dirname "$0")" && pwd)"
export VERIF_DIR="$here" VERIF_TIER="${VERIF_TIER:-quick}" VERIF_SEED="${VERIF_SEED:-1}"
export HOME="${HOME:-/root}" PATH="/root/.cargo/bin:$PATH" RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=0 RUSTC_WRAPPER=
unset RUSTFLAGS CARGO_BUILD_TARGET
rm -f "$here/evidence/$id.json"; rm -rf "${here:?}/evidence/replay/$id"-*
mkdir -p "$here/evidence/replay"
case "$id" in
  C0[1-5]) ws=direct; bin=mc-direct; what= ;;
  C0[6-9]|C1[0-5]) ws=ark; layer=crypto ;;
  C2[0-2]) ws=ark; layer=gadgets ;;
  C1[6-9]|C29|C3[12]) ws=ark; layer=ffi ;;
  *) ws=ark; layer=epoch ;;
esac
# Only the crates of the repository that the property needs are built.
[ $ws = ark ] && bin=mc-ark-$layer what="--no-default-features --features $layer --bin $bin"
export CARGO_TARGET_DIR="$here/.build/$ws"
log="$here/.build/$ws-build.log"; mkdir -p "$here/.build"
# cargo tracks /repo's files by modification time; make that content-based.
sum="$(find /repo/crates -name target -prune -o -type f -print0 | sort -z | xargs -0 sha256sum | sha256sum)"
if [ "$sum" != "$(cat "$CARGO_TARGET_DIR.sum" 2>/dev/null)" ]; then
  (cd "$here/mc/$ws" && cargo clean --release --offline -p bls-crypto -p bls-gadgets $([ $ws = ark ] && echo -p bls-crypto-nc -p bls-gadgets-nc -p epoch-snark -p bls-snark-sys)) >/dev/null 2>&1
fi
if ! (cd "$here/mc/$ws" && cargo build --release --offline --locked $what ${VERIF_CARGO_FLAGS:-}) >"$log" 2>&1; then
  echo "build of the code under test failed:"; grep -E '^error' -A8 "$log" | head -60; tail -5 "$log"
  exit 2
fi
echo "$sum" > "$CARGO_TARGET_DIR.sum"
limit=800; [ "$VERIF_TIER" = thorough ] && limit="${VERIF_LIMIT:-14000}"
timeout -k 5 "$limit" "$CARGO_TARGET_DIR/release/$bin" "$id"
rc=$?
case $rc in
  0|1) exit $rc ;;
  101|124|134|135|136|139)
    # panic outside a case (in shared set-up), hang, abort or memory fault inside the code under test
    r="$here/evidence/replay/$id-crash.txt"
    { echo "property: $id"; echo "the exploration ended with status $rc (101: panic, 124: no termination, 134: abort, 139: memory fault)"; 
      cat "$here/evidence/replay/$id.current" 2>/dev/null; echo "replay: VERIF_TIER=$VERIF_TIER ./check.sh $id"; } > "$r"
    python3 - "$here/evidence/$id.json" "$id" "$VERIF_TIER" "$VERIF_SEED" "$rc" <<'PY'
import json,sys
p,i,t,s,rc=sys.argv[1:]
json.dump({"property":i,"tier":t,"seed":int(s),"level":"model_checking","coverage":{"states":0,"transitions":0,"traces_validated_against_impl":0,"samples":["ended with status "+rc]},"wall_s":0,"violations":1},open(p,"w"))
PY
    echo "VIOLATION property=$id replay=$r"; exit 1 ;;
  *) echo "check ended with status $rc"; exit 2 ;;
esac
