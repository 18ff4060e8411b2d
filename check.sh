#!/bin/bash
# ./check.sh PROPERTY [--tier quick|thorough] [--replay FILE | --case CASE]
# Builds the binary that decides PROPERTY against /repo's working tree, offline,
# and runs it.
VERIF="$(cd "$(dirname "$0")" && pwd)"
cd "$VERIF" || exit 2
unset RUST_BACKTRACE RUSTFLAGS CARGO_ENCODED_RUSTFLAGS
export CARGO_TARGET_DIR="$VERIF/target" CARGO_NET_OFFLINE=true MC_VERIF="$VERIF"
REPO=/repo
mkdir -p "$CARGO_TARGET_DIR" "$VERIF/evidence" "$VERIF/replays" || exit 2

build() { # bin
  # Cargo trusts time stamps; a tree that was copied or patched may have any.
  local sum stamp="$CARGO_TARGET_DIR/repo.sha256"
  sum=$(cd "$REPO" && find src build.rs Cargo.toml -type f -print0 2>/dev/null | sort -z | xargs -0 sha256sum | sha256sum)
  if [ "$(cat "$stamp" 2>/dev/null)" != "$sum" ]; then
    cargo +stable clean --offline --release --manifest-path mc/Cargo.toml -p scilla-parser >/dev/null 2>&1
    rm -f "$stamp"
  fi
  cargo +stable build --offline --release --quiet --manifest-path mc/Cargo.toml --bin "$1" || return 1
  printf '%s' "$sum" > "$stamp"
}

case "$1" in
  setup)
    for b in mc_lexer mc_grammar mc_visitor mc_contract; do
      build $b || exit 2
    done
    exit 0 ;;
  C02|C03|C17) bin=mc_lexer ;;
  C04|C05|C06|C07) bin=mc_grammar ;;
  C13|C14) bin=mc_visitor ;;
  C01|C08|C09|C10|C11|C12|C15|C16|C18|C19|C20) bin=mc_contract ;;
  *) echo "usage: $0 C01..C20 [--tier quick|thorough] [--replay FILE]" >&2; exit 2 ;;
esac

{
  flock 9
  build $bin 9>&-
} 9>"$CARGO_TARGET_DIR/check.lock" || { echo "cannot build $bin against $REPO" >&2; exit 2; }
exec "$CARGO_TARGET_DIR/release/$bin" "$@"
