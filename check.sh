#!/bin/bash
# check.sh <property>: rebuilds the harness against /repo's working tree and runs one check.
# check.sh --build: only builds.  check.sh <property> --replay FILE: runs one saved failing case.
. /opt/vp/env.sh
export CARGO_TARGET_DIR=/verif/.build CARGO_INCREMENTAL=0
cd /verif/harness || exit 2
mkdir -p "$CARGO_TARGET_DIR/release" /verif/evidence
(
  flock 9
  # Cargo trusts modification times; a tree whose content differs from the last build is rebuilt whatever its times say.
  now=$(cd /repo && find . \( -name .git -o -name target -o -name node_modules \) -prune -o -type f -print0 | sort -z | xargs -0 sha256sum | sha256sum)
  if [ "$now" != "$(cat "$CARGO_TARGET_DIR/tree.sha" 2>/dev/null)" ]; then
    for c in asset-program nifty-asset nifty-asset-types nifty-asset-interface asset-check bridge-program proxy-program nifty-bridge solana-include-idl asset-types; do
      rm -rf "$CARGO_TARGET_DIR/release/.fingerprint/$c"-????????????????
    done
  fi
  cargo build --release --offline --locked >"$CARGO_TARGET_DIR/build.log" 2>&1 || { tail -40 "$CARGO_TARGET_DIR/build.log" >&2; rm -f "$CARGO_TARGET_DIR/tree.sha"; exit 2; }
  echo "$now" >"$CARGO_TARGET_DIR/tree.sha"
) 9>"$CARGO_TARGET_DIR/lock" || exit 2
[ "$1" = --build ] && exit 0
cd /verif && exec "$CARGO_TARGET_DIR/release/checks" "$@"
