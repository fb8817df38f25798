#!/bin/bash
# mkseed.sh ID PROPERTY MAIN.rs "needs" "what it breaks": makes a seeded bug of /repo's working tree
# changes, confirms it, runs the property's check against it, and reverts /repo.
set -u
id=$1; prop=$2; main=$3; needs=$4; what=$5
d=/verif/seeded/$id; mkdir -p "$d"
git -C /repo diff > "$d/patch.diff"
[ -s "$d/patch.diff" ] || { echo "no change"; exit 1; }
[ "$(realpath "$main")" = "$(realpath -m "$d/main.rs")" ] || cp "$main" "$d/main.rs"
cp /verif/mc/Cargo.lock "$d/Cargo.lock.in"
deps=$(grep -o 'facet_[a-z]*\|serde_json' "$d/main.rs" | sort -u | tr '_' '-')
{ echo '[package]'; echo 'name = "demo"'; echo 'version = "0.0.0"'; echo 'edition = "2024"'; echo '[workspace]'
  echo '[[bin]]'; echo 'name = "demo"'; echo 'path = "main.rs"'; echo '[profile.dev]'; echo 'debug = 0'; echo '[dependencies]'
  echo 'facet = { path = "/repo/facet" }'
  for c in $deps; do case $c in serde-json) echo 'serde_json = "1"';; *) [ -d "/repo/$c" ] && echo "$c = { path = \"/repo/$c\" }";; esac; done; } > "$d/Cargo.toml.in"
cat > "$d/demo.sh" <<'D'
#!/bin/bash
# exit 0: behaves; nonzero: does not
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
cp "$here/main.rs" "$t/"; cp "$here/Cargo.toml.in" "$t/Cargo.toml"; cp "$here/Cargo.lock.in" "$t/Cargo.lock"
export HOME=${HOME:-/root} PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=1.86.0 CARGO_NET_OFFLINE=true RUSTC_WRAPPER= CARGO_TARGET_DIR=$t/target
ulimit -c 0
cd "$t" && timeout 280 cargo run --offline --quiet 2>&1 | tail -20
exit "${PIPESTATUS[0]}"
D
chmod +x "$d/demo.sh"
python3 - "$d/meta.json" "$prop" "$needs" "$what" <<'P'
import json,sys
json.dump({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},open(sys.argv[1],"w"),indent=1)
P
cd /repo
bash /tmp/t.sh 2>&1 | grep -A3 "passed\|^error"
"$d/demo.sh" > /tmp/demo.out 2>&1; w=$?
echo "demo with the bug: exit $w: $(tail -3 /tmp/demo.out | cut -c1-300)"
(cd /verif && ./check.sh "$prop" | cut -c1-300 | head -${SHOW:-6}; echo "check exit ${PIPESTATUS[0]}")
git -C /repo checkout -- .
"$d/demo.sh" > /tmp/demo.out 2>&1; w2=$?
echo "demo without the bug: exit $w2: $(tail -3 /tmp/demo.out | cut -c1-300)"
