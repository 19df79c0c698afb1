#!/bin/bash
# run.sh <property id> [--tier quick|thorough] [--replay suite:index]
# Rebuilds the monitor for the property's area against /repo's current working tree, then runs it.
id="$1"; [ -n "$id" ] || { echo "usage: run.sh <property> [args]" >&2; exit 2; }
here="$(cd "$(dirname "$0")" && pwd)"
repo="${VERIF_REPO:-/repo}"
export HOME="${HOME:-/root}"
[ -f /opt/vp/env.sh ] && { cwd="$PWD"; . /opt/vp/env.sh >/dev/null 2>&1; cd "$cwd" 2>/dev/null || cd /; }
export RUSTUP_TOOLCHAIN="${RUSTUP_TOOLCHAIN:-nightly-2026-03-10}" CARGO_NET_OFFLINE=true
export CARGO_TARGET_DIR="$here/target" VERIF_ROOT="$here" RUSTFLAGS="-Awarnings"
unset CARGO_BUILD_RUSTFLAGS RUSTC_WRAPPER
case "$id" in
  P*) area=parser ;; C*) area=crond ;; U*) area=uri ;; H*) area=hocon ;; T*) area=toys ;;
  *) echo "unknown property $id" >&2; exit 2 ;;
esac
log="$(mktemp)"; trap '/bin/rm -f "$log"' EXIT
cd "$here/harness/$area" || exit 2
if [ -x ./gen.sh ]; then ./gen.sh "$repo" >"$log" 2>&1 || { cat "$log"; echo "INCONCLUSIVE property=$id: generation failed"; exit 2; }; fi
# one build at a time: checks may run side by side
exec 9>"$here/.build.lock"; flock 9
cargo build --offline --release --quiet >"$log" 2>&1 || { tail -40 "$log"; echo "INCONCLUSIVE property=$id: build failed"; exit 2; }
bin="$CARGO_TARGET_DIR/release/h$area"
flock -u 9; exec 9>&-
cd "$here" || exit 2
ulimit -c 0; ulimit -v 16000000
"$bin" "$@"
