#!/bin/bash
# usage: check.sh PROPERTY quick|thorough     or   check.sh PROPERTY replay FILE
# Rebuilds the harness (and with it /repo's current working tree) and runs one property's check.
set -u
cd "$(dirname "$0")"
export VF_ROOT="$PWD"
export VERIF_SEED="${VERIF_SEED:-1}"
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$PWD/target" CARGO_TERM_COLOR=never
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
# coerce-redis trips a lint that newer compilers deny
export RUSTFLAGS="--cap-lints warn --cfg vf_hooks"
unset CARGO_BUILD_TARGET
P="$1"; MODE="${2:-quick}"
case "$P" in
  all) BIN="" ;;
  C0[1-9]|C26) BIN=core ;;
  C10|C11|C12) BIN=persist ;;
  C13) BIN=redis ;;
  C14) BIN=wire ;;
  C1[5-8]|C2[2-4]) BIN=remote ;;
  C19|C20|C28) BIN=shard ;;
  C21) BIN=singleton ;;
  C25|C27) BIN=api ;;
  *) echo "unknown property $P" >&2; exit 2 ;;
esac
T0=$(date +%s)
# Do not depend on file times: when the content of the sources changed, drop the compiled crates.
mkdir -p "$CARGO_TARGET_DIR"
HR=$(cd /repo && find coerce providers Cargo.toml -type f \( -name '*.rs' -o -name '*.toml' -o -name '*.proto' \) -not -path '*/target/*' -print0 | sort -z | xargs -0 sha256sum | sha256sum | cut -d' ' -f1)
HH=$(cd harness && find src Cargo.toml Cargo.lock -type f -print0 | sort -z | xargs -0 sha256sum | sha256sum | cut -d' ' -f1)
OLD=$(cat "$CARGO_TARGET_DIR/.srchash" 2>/dev/null)
if [ "${OLD% *}" != "$HR" ]; then
  (cd harness && cargo clean --offline -p coerce -p coerce-macros -p coerce-redis -p vf) >/dev/null 2>&1
elif [ "${OLD#* }" != "$HH" ]; then
  (cd harness && cargo clean --offline -p vf) >/dev/null 2>&1
fi
echo "$HR $HH" > "$CARGO_TARGET_DIR/.srchash"
LOG=$(mktemp)
if ! (cd harness && cargo build --offline ${BIN:+--bin "$BIN"}) >"$LOG" 2>&1; then
  grep -E '^(error|warning: unused)' -A6 "$LOG" | head -60 >&2
  echo "BUILD FAILED for $P" >&2; rm -f "$LOG"; exit 2
fi
rm -f "$LOG"
echo "built in $(( $(date +%s) - T0 )) s" >&2
[ -n "${BUILD_ONLY:-}" ] && exit 0
exec "$CARGO_TARGET_DIR/debug/$BIN" "$P" "$MODE" ${3:+"$3"}
