#!/bin/bash
# check.sh <ID>            run the check of one property (VERIF_TIER, VERIF_SEED from the environment)
# check.sh --replay FILE   re-run one recorded failing input
# Exit: 0 held, 1 violated (with a VIOLATION line), 2 error of the check.
cd "$(dirname "$0")" || exit 2
export VERIF_DIR="$PWD"
export HOME="${HOME:-/root}" PATH="$PATH:/usr/local/bin:/root/.cargo/bin"
export RUSTUP_TOOLCHAIN=nightly-2025-12-19 CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= CARGO_INCREMENTAL=0
unset RUSTFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET
crate_of() {
  case "$1" in
    E11) echo sr ;;
    E*) echo de ;;
    S*) echo sr ;;
    W*) echo wasm ;;
    U*) echo ui ;;
    *) echo "" ;;
  esac
}
if [ "$1" = --replay ]; then
  id=$(sed -n 's/^property //p' "$2" | head -1)
  set -- "$id" "$(realpath "$2")"
fi
id="$1"; replay="$2"
crate=$(crate_of "$id")
[ -n "$crate" ] || { echo "usage: check.sh ID | --replay FILE" >&2; exit 2; }
mkdir -p "$VERIF_DIR/target" "$VERIF_DIR/evidence"
if [ "$crate" = ui ]; then
  # bundles the sources of /repo/web/ui itself
  if [ -n "$replay" ]; then node harness/ui/run.mjs replay "$replay"; else node harness/ui/run.mjs "$id"; fi
  rc=$?
  case $rc in 0|1) exit $rc ;; *) exit 2 ;; esac
fi
log="$VERIF_DIR/target/build-$crate.log"
if ! cargo build --offline --manifest-path "harness/$crate/Cargo.toml" --target-dir "$VERIF_DIR/target/$crate" >"$log" 2>&1; then
  grep -E -A12 '^error' "$log" | head -80 >&2
  echo "check.sh: build of harness/$crate failed" >&2
  exit 2
fi
bin="$VERIF_DIR/target/$crate/debug/v$crate"
if [ -n "$replay" ]; then
  "$bin" replay "$replay"; exit $?
fi
"$bin" "$id"
rc=$?
case $rc in
  0|1) exit $rc ;;
  132|134|135|136|139)
    # the code under test brought the process down (stack overflow, abort)
    mkdir -p evidence/replay
    f="$VERIF_DIR/evidence/replay/$id.txt"
    echo "# property $id: the process died with status $rc; run VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=${VERIF_TIER:-quick} /verif/check.sh $id" > "$f"
    echo "VIOLATION property=$id replay=$f"
    exit 1 ;;
  *) exit 2 ;;
esac
