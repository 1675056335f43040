#!/bin/bash
# Builds the scenario beside this file against /repo's working tree and runs it: the whole system, deployed on
# a simulated ledger in this process. Exit 0: everything as it should be.
D="$(cd "$(dirname "$0")" && pwd)"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS
export CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0
S=$(mktemp -d "${TMPDIR:-/tmp}/demo.XXXXXX") || exit 2
trap 'rm -rf "$S"' EXIT
mkdir -p "$S/kit" "$S/t/debug"
tar xzf "$D/kit.tgz" -C "$S/kit" || exit 2
cp "$D/scenario.rs" "$S/kit/src/scenario.rs"
# Reuse what build.sh already compiled.
for d in deps .fingerprint build; do
  [ -d "/repo/exchange/target/debug/$d" ] || continue
  if [ $d = deps ]; then cp -al "/repo/exchange/target/debug/$d" "$S/t/debug/" 2>/dev/null || { rm -rf "$S/t/debug/$d"; cp -as "/repo/exchange/target/debug/$d" "$S/t/debug/"; }
  else cp -a "/repo/exchange/target/debug/$d" "$S/t/debug/"; fi
done
build() { (set -a; . "$1"; set +a; cd "$S/kit" && cargo build --offline --target-dir "$S/t" >"$S/log" 2>&1) || { tail -40 "$S/log"; exit 2; }; }
build "$S/kit/addresses.env"
"$S/t/debug/demo" probe >"$S/probe"; rc=$?
if [ $rc = 3 ]; then build "$S/probe"; fi
timeout 200 "$S/t/debug/demo"
