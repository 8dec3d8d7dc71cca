#!/bin/bash
# Runs demo.rs as an integration test of the crate as built from /repo's working tree.
HERE=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/scope/env.sh
T=$(mktemp -d /tmp/vpdemo.XXXXXX)
trap 'rm -rf "$T"' EXIT
set -e
python3 /opt/vp/scope/mirror.py
mkdir -p "$T/w/tests" "$T/target/debug"
cp -a /opt/vp/work/Cargo.toml /opt/vp/work/Cargo.lock /opt/vp/work/src /opt/vp/work/openid4vp-frontend "$T/w/"
[ -d /opt/vp/work/examples ] && cp -a /opt/vp/work/examples "$T/w/"
cp "$HERE/demo.rs" "$T/w/tests/demo.rs"
[ -d "$HERE/files" ] && cp -a "$HERE/files" "$T/w/tests/"
tar -C /opt/vp/work/target/debug --exclude='*openid4vp*' --exclude='./incremental' --exclude='./examples' -cf - . | tar -C "$T/target/debug" -xf -
cp -a /opt/vp/work/target/.rustc_info.json "$T/target/" 2>/dev/null || true
export CARGO_TARGET_DIR="$T/target" CARGO_INCREMENTAL=0
cd "$T/w"
timeout 280 cargo test --offline --all-features --test demo -- --test-threads 4
