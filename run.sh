#!/bin/bash
# run.sh setup | check <property> [quick|thorough] | replay <file> | dev ...
# Builds the simulator from /repo's current working tree, then runs it.
V="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
REPO=/repo
TGT="$V/target"
BIN="$TGT/debug/sim"
if [ -f /opt/vp/env.sh ]; then . /opt/vp/env.sh; fi
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS
export CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=1
CRATES="common account config pool oracle referral_generator permission_registry fee_delegator fee_distributor token_wrapper exchange env_registry faucet"
mkdir -p "$TGT"
exec 9>"$TGT/.lock"; flock 9

tree_hash() { # every file of a crate that can take part in its build
  (cd "$1" 2>/dev/null && find . -path ./target -prune -o -type f \( -name '*.rs' -o -name Cargo.toml -o -name '*.json' \) -print | LC_ALL=C sort | xargs -r sha256sum | sha256sum | cut -c1-40)
}
stamp_of() {
  for c in $CRATES; do echo "$c $(tree_hash "$REPO/$c")"; done
  echo "sim $(tree_hash "$V/sim/src") $(sha256sum < "$V/sim/Cargo.toml" | cut -c1-40)"
  echo "vendor $(tree_hash "$V/vendor")"
}
cargo_build() {
  # The addresses the deployed components will have are compile-time constants of the blueprints.
  set -a; . "$1"; set +a
  (cd "$V/sim" && cargo build --offline --locked --target-dir "$TGT" >"$TGT/build.log" 2>&1)
}
build() {
  local old="$TGT/.stamp" new
  new="$(stamp_of)"
  if [ -x "$BIN" ] && [ -f "$old" ] && [ "$new" = "$(cat "$old")" ]; then return 0; fi
  rm -f "$TGT/.stamp.tmp"
  # Not trusting modification times: rebuild whatever differs by content, everything when in doubt.
  local clean="" c
  for c in $CRATES; do
    [ -f "$old" ] && grep -qxF "$(grep "^$c " <<<"$new")" "$old" || clean="$clean -p $c"
  done
  [ -f "$old" ] && grep -qxF "$(grep "^sim " <<<"$new")" "$old" || clean="$clean -p sim"
  rm -f "$old"
  if [ -n "$clean" ] && [ -d "$TGT/debug" ]; then (cd "$V/sim" && cargo clean --offline --target-dir "$TGT" $clean >/dev/null 2>&1); fi
  local addr="$V/sim/addresses.env"
  [ -f "$TGT/addresses.env" ] && addr="$TGT/addresses.env"
  cargo_build "$addr" || { tail -60 "$TGT/build.log"; echo "internal: the simulator does not build against $REPO"; return 2; }
  "$BIN" probe > "$TGT/probe.out" 2>"$TGT/probe.err"
  local rc=$?
  if [ $rc = 3 ]; then
    # A change moved the deployment addresses: build again with the ones it really has.
    cp "$TGT/probe.out" "$TGT/addresses.env"
    (cd "$V/sim" && cargo clean --offline --target-dir "$TGT" -p common >/dev/null 2>&1)
    cargo_build "$TGT/addresses.env" || { tail -60 "$TGT/build.log"; return 2; }
    "$BIN" probe > "$TGT/probe.out" 2>"$TGT/probe.err"; rc=$?
  fi
  if [ $rc != 0 ]; then cat "$TGT/probe.err"; echo "internal: the system could not be deployed"; return 2; fi
  echo "$new" > "$TGT/.stamp"
}
build || exit 2
flock -u 9
ulimit -v unlimited 2>/dev/null
case "$1" in
  setup) echo "built $BIN" ;;
  check)
    id="$2"; tier="${3:-${VERIF_TIER:-quick}}"
    if [ "$tier" = thorough ]; then secs=${VERIF_SECS:-780}; else secs=${VERIF_SECS:-40}; fi
    exec "$BIN" check --property "$id" --tier "$tier" --seed "${VERIF_SEED:-1}" --secs "$secs" --evidence "$V/evidence/$id.json" --known "$V/KNOWN_FINDINGS.txt" --replays "$V/replays" --workers "$(nproc)" ;;
  replay) exec "$BIN" replay "$2" ;;
  *) exec "$BIN" "$@" ;;
esac
