#!/bin/bash
# Builds every harness crate once (offline). The checks rebuild incrementally from /repo's working tree.
here="$(cd "$(dirname "$0")" && pwd)"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh >/dev/null 2>&1
export RUSTUP_TOOLCHAIN="${RUSTUP_TOOLCHAIN:-nightly-2026-03-10}" CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$here/target" RUSTFLAGS="-Awarnings"
mkdir -p "$here/evidence" "$here/replays"
rc=0
for d in "$here"/harness/*/; do
  [ -f "$d/src/main.rs" ] || continue
  cd "$d" || exit 1
  if [ -x ./gen.sh ]; then ./gen.sh "${VERIF_REPO:-/repo}" || rc=1; fi
  cargo build --offline --release --quiet || rc=1
done
exit $rc
