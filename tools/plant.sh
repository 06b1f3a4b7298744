#!/bin/bash
# plant.sh ID PROP "needs" "what": take the uncommitted change in /repo as planted bug ID, then undo it.
# The demo program is read from stdin (main.rs).
set -e
D=/verif/seeded/$1; mkdir -p "$D"
cat > "$D/main.rs"
git -C /repo diff > "$D/patch.diff"
git -C /repo checkout -- .
[ -s "$D/patch.diff" ]
cp /verif/orc/Cargo.lock "$D/demo.lock"; sed -i 's/name = "orc"/name = "demo"/' "$D/demo.lock"
cat > "$D/demo.sh" <<'X'
#!/bin/bash
# builds main.rs against the tree in the current directory and runs it: exit 0 iff the property held
D=$(cd "$(dirname "$0")" && pwd); R=$PWD
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
mkdir "$T/src"; cp "$D/main.rs" "$T/src/main.rs"; cp "$D/demo.lock" "$T/Cargo.lock"
cat > "$T/Cargo.toml" <<Y
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
rustsat = { path = "$R", features = ["_internals", "multiopt", "fxhash"] }
[workspace]
Y
cd "$T" && CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$T/target" cargo run --offline -q
X
chmod +x "$D/demo.sh"
python3 - "$@" <<'Y'
import json,sys
i,p,n,w=sys.argv[1:5]
json.dump({"property":p,"needs":n,"what_it_breaks":w},open(f"/verif/seeded/{i}/meta.json","w"),indent=1)
Y
