#!/bin/bash
# build.sh BIN... | --all : builds harness binaries from /repo's current sources.
# Cargo decides by modification times; a content hash makes sure a changed tree is always recompiled.
here="$(cd "$(dirname "$0")/.." && pwd)"
. /opt/vp/env.sh
cd "$here" || exit 2
export CARGO_TARGET_DIR="${CARGO_TARGET_DIR:-$here/target}"
mkdir -p "$CARGO_TARGET_DIR"
exec 9>"$CARGO_TARGET_DIR/.verif-lock"
flock 9
cd harness || exit 2
sum="$(cd "$here/../repo" && find Cargo.toml src .cargo -type f -print0 | sort -z | xargs -0 sha256sum | sha256sum | cut -d' ' -f1)"
stamp="$CARGO_TARGET_DIR/.verif-repo-sum"
if [ "$(cat "$stamp" 2>/dev/null)" != "$sum" ]; then
  cargo clean --offline -p die-e >/dev/null 2>&1
  rm -f "$stamp"
fi
if [ "$1" = "--all" ]; then args=(--bins); else args=(); for b in "$@"; do args+=(--bin "$b"); done; fi
cargo build --offline "${args[@]}" || exit 1
echo "$sum" >"$stamp"
