#!/bin/bash
# check.sh <ID> [quick|thorough] [--case KEY]: build the harness against /repo's working tree and run one check.
cd "$(dirname "$0")" || exit 2
VERIF=$(pwd)
export RUSTUP_TOOLCHAIN=1.86-x86_64-unknown-linux-gnu
export PATH="/root/.cargo/bin:/usr/local/cargo/bin:$PATH"
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= CARGO_INCREMENTAL=1
export MC_VERIF="$VERIF"
ID=$1
build() { # cargo arguments
  ( cd "$VERIF/harness" && CARGO_TARGET_DIR="$VERIF/target" cargo build --release --offline --quiet "$@" 2>"$VERIF/target/build-$ID.log" ) || {
    cat "$VERIF/target/build-$ID.log" >&2; echo "build failed" >&2; exit 2; }
}
build_cli() { # the command line tool, as users build it
  ( cd /repo && CARGO_PROFILE_DEV_DEBUG=line-tables-only CARGO_TARGET_DIR="$VERIF/target/cli" cargo build --offline --locked --quiet -p storm-cli --bin storm-cli 2>"$VERIF/target/build-cli.log" ) || {
    cat "$VERIF/target/build-cli.log" >&2; echo "build failed" >&2; exit 2; }
  export MC_CLI="$VERIF/target/cli/debug/storm-cli"
}
mkdir -p "$VERIF/target" "$VERIF/evidence"
case $ID in
  --build-only) build --bin mc; build --features ffi --bin mcffi; build_cli; exit 0 ;;
  P17|P18) build --features ffi --bin mcffi; BIN=mcffi ;;
  P22) BIN=mcffi; ( build --features ffi --bin mcffi ) 2>/dev/null || { build --bin mc; BIN=mc; } ;;
  P19|P20) build_cli; build --bin mc; BIN=mc ;;
  *) build --bin mc; BIN=mc ;;
esac
exec "$VERIF/target/release/$BIN" "$@"
