#!/bin/bash
# check.sh ID [args]: build the harness of property ID from /repo's working
# tree and run it (exit 0 held, 1 violation, 2 error). VERIF_TIER selects depth.
export HOME=${HOME:-/root}
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-buildvcs=false
unset GOWORK
export VERIF_DIR=$(cd "$(dirname "$0")" && pwd)
id=$1; shift
pkg=$(echo "$id" | tr 'A-Z' 'a-z')
work=$(mktemp -d /tmp/verif-$id-XXXXXX) || exit 2
[ -n "$KEEP" ] || trap 'rm -rf "$work"' EXIT
(cd "$VERIF_DIR/tools" && GOWORK=off go build -o "$work/vtool" .) || { echo "ERROR: cannot build vtool"; exit 2; }
"$work/vtool" -repo /repo/go -harness "$VERIF_DIR/harness" -out "$work" -check "$pkg" || { echo "ERROR: vtool failed"; exit 2; }
race=; [ -e "$work/race" ] && race=-race
mod=; if [ -e "$work/go.mod" ]; then mod="-trimpath -modfile=$work/go.mod"; export GOWORK=off; fi
cd /repo/go || exit 2
go build $race $mod -overlay "$work/overlay.json" -o "$work/hbin" "./zzverif/$pkg" || { echo "ERROR: build failed"; exit 2; }
if [ -e "$work/rust" ]; then
  cp -r "$VERIF_DIR/rust" "$work/rs" && sed -i "s|@REPO@|/repo|" "$work"/rs/*/Cargo.toml
  (cd "$work/rs" && RUSTFLAGS="--cap-lints allow" CARGO_TARGET_DIR="$work/rt" cargo build --offline -q) || { echo "ERROR: build of the Rust crates failed"; exit 2; }
  export VERIF_RUST=$work/rt/debug/app
fi
[ -n "$BUILD_ONLY" ] && { cat "$work/hbin" > "$BUILD_ONLY"; exit 0; }
cd "$work" || exit 2
TMPDIR=$work "$work/hbin" "$@"
rc=$?
exit $rc
