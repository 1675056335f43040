#!/bin/bash
# mk.sh <id>: give /verif/seeded/<id> (patch.diff, scenario.rs, meta.json) its demonstration kit, from the simulator's sources.
set -e
V="$(cd "$(dirname "${BASH_SOURCE[0]}")/.." && pwd)"
D="$V/seeded/$1"
S=$(mktemp -d); trap 'rm -rf "$S"' EXIT
mkdir -p "$S/src"
cp "$V"/demokit/src/*.rs "$V"/demokit/Cargo.toml "$V"/demokit/Cargo.lock "$S/" 
mv "$S"/*.rs "$S/src/"
for f in act ledger mirror rogue st vm world; do cp "$V/sim/src/$f.rs" "$S/src/"; done
sed -i 's/manifest_args!(crate::gen::default_x())/manifest_args!()/' "$S/src/act.rs"
cp "$V/sim/addresses.env" "$S/"
cp -r "$V/vendor" "$S/vendor"
tar --sort=name --mtime=@0 --owner=0 --group=0 --numeric-owner -C "$S" -cf - . | gzip -n > "$D/kit.tgz"
cp "$V/demokit/demo.sh" "$D/demo.sh"; chmod +x "$D/demo.sh"
