#!/bin/bash
# Run in the repository's root. 0 = the property held in this demonstration, 1 = it did not.
D=$(cd "$(dirname "$0")" && pwd)
R=$PWD
T=$(mktemp -d) || exit 2
trap '/bin/rm -r "$T"' EXIT
mkdir "$T/src" && cp "$D"/*.rs "$T/src/" || exit 2
cp "$R/Cargo.lock" "$T/" 2>/dev/null
cat > "$T/Cargo.toml" <<X
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
mysql_cdc = { path = "$R" }
[workspace]
X
cd "$T" || exit 2
CARGO_TARGET_DIR="$T/target" cargo build --offline -q 2>"$T/log" || { cat "$T/log"; exit 2; }
TMPDIR="$T" timeout 100 "$T/target/debug/demo"
r=$?
[ $r = 0 ] && exit 0
echo "demonstration failed ($r)"
exit 1
