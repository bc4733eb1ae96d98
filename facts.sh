#!/bin/bash
# Type-check /repo's working tree with the driver and dump the facts of both crates into .build/facts.
set -e
cd "$(dirname "$0")"
here=$PWD
repo=${REPO:-/repo}
work=${VERIF_WORK:-$here/.build}
mkdir -p "$work/facts"
rm -f "$work"/facts/*.json
t=$work/target
# cargo's freshness cache would skip the wrapper on a warm target directory
rm -rf "$t"/debug/build/ludtwig* "$t"/debug/.fingerprint/ludtwig* "$t"/debug/deps/*ludtwig*
export LD_LIBRARY_PATH=$(rustc +nightly --print sysroot)/lib
export RUSTC_WORKSPACE_WRAPPER=$here/.build/driver VERIF_FACTS=$work/facts
export CARGO_TARGET_DIR=$t CARGO_INCREMENTAL=0 CARGO_PROFILE_DEV_DEBUG=0
export RUSTFLAGS="-Zmir-opt-level=0 -Zalways-encode-mir" CARGO_ENCODED_RUSTFLAGS=
unset CARGO_ENCODED_RUSTFLAGS
before=$(cd "$repo" && sha256sum Cargo.lock)
(cd "$repo" && cargo +nightly check --offline -q >"$work/check.log" 2>&1) || { cat "$work/check.log" >&2; echo "facts.sh: /repo does not type-check" >&2; exit 2; }
after=$(cd "$repo" && sha256sum Cargo.lock)
[ "$before" = "$after" ] || { echo "facts.sh: Cargo.lock changed" >&2; exit 2; }
for f in ludtwig_parser-lib ludtwig-bin; do
    [ -s "$work/facts/$f.json" ] || { echo "facts.sh: no facts for $f" >&2; exit 2; }
done
