#!/bin/bash
# check.sh ID [--replay FILE | --build-only]: rebuild from /repo's working tree and run one check.
set -u
here=$(cd "$(dirname "$0")" && pwd)
export VERIF_DIR=$here
export HOME=${HOME:-/root}
export PATH=/root/.cargo/bin:$PATH
export RUSTUP_TOOLCHAIN=1.86.0 CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=1 CARGO_TERM_COLOR=never RUSTC_WRAPPER=
export CARGO_TARGET_DIR=$here/target
export RUST_BACKTRACE=0
ulimit -c 0
id=$1; shift  # or --all: build all checks
mkdir -p "$here/target"
exec 9>"$here/target/.lock"
flock 9
# cargo decides by mtime whether a path dependency changed; decide by content instead.
h=$(cd /repo && find . -path ./target -prune -o -path ./.git -prune -o -type f \( -name '*.rs' -o -name 'Cargo.toml' -o -name '*.md' \) -print0 | sort -z | xargs -0 sha256sum | sha256sum | cut -d' ' -f1)
if [ "$(cat "$here/target/.srchash" 2>/dev/null)" != "$h" ]; then
  rm -f "$here/target/.srchash"
  (cd "$here/mc" && cargo clean --offline -p facet -p facet-core -p facet-derive -p facet-derive-emit -p facet-derive-parse -p facet-reflect -p facet-json -p facet-msgpack -p facet-toml -p facet-yaml -p facet-urlencoded -p facet-args -p facet-pretty >/dev/null 2>&1)
fi
bin=$(echo "$id" | tr 'A-Z' 'a-z')
if [ "$id" = --all ]; then
  (cd "$here/mc" && cargo build --offline --quiet --bins) && echo "$h" > "$here/target/.srchash"
  exit
fi
if ! (cd "$here/mc" && cargo build --offline --quiet --bin "$bin") >"$here/target/build-$bin.log" 2>&1; then
  tail -60 "$here/target/build-$bin.log"
  echo "check $id: build failed"
  exit 2
fi
echo "$h" > "$here/target/.srchash"
flock -u 9
[ "${1:-}" = --build-only ] && exit 0
cp -f "$here/target/debug/$bin" "$here/target/run-$bin.$$" && trap 'rm -f "$here/target/run-$bin.$$"' EXIT
cd "$here"
"$here/target/run-$bin.$$" "$@"
