#!/bin/bash
# mkdemo.sh ID : (re)writes seeded/ID/demo.sh, which builds demo.rs beside it against the repository in the working directory
D=/verif/seeded/$1
cat > $D/demo.sh <<'X'
#!/bin/bash
# Builds demo.rs (beside this file) against the repository in the working directory and runs it: exit 0 when the property holds.
set -e
D=$(cd "$(dirname "$0")" && pwd)
R=$PWD
W=$(mktemp -d)
mkdir -p "$W/src"
cp "$D/demo.rs" "$W/src/main.rs"
cp "$R/Cargo.lock" "$W/Cargo.lock"
cat > "$W/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
tket = { path = "$R/tket", features = ["portmatching"] }
tket-qsystem = { path = "$R/tket-qsystem" }
hugr = "0.24.3"
hugr-core = "0.24.3"
itertools = "0.14.0"
serde_json = "1"
tket-json-rs = "0.7.7"
[workspace]
T
export CARGO_TARGET_DIR="$R/target/demo"
cd "$W"
set +e
timeout 280 cargo run --offline --quiet
RC=$?
rm -rf "$W"
exit $RC
X
chmod +x $D/demo.sh
