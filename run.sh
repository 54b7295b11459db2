#!/bin/bash
# run.sh ID quick|thorough|replay FILE : builds the check from /repo's current tree and runs it
here="$(dirname "$(readlink -f "$0")")"
. /opt/vp/env.sh
cd "$here" || exit 2
id="$1"; mode="${2:-quick}"
bin="$(echo "$id" | tr A-Z a-z)"
export VERIF_DIR="$PWD" CARGO_TARGET_DIR="$PWD/target"
mkdir -p work evidence replays
case "$id" in C28|C29|C30|C31|C33|C34) also=cli ;; *) also= ;; esac
if ! tools/build.sh "$bin" $also >work/build-$bin.log 2>&1; then
  tail -40 work/build-$bin.log
  echo "ERROR property=$id: the check does not build against /repo"
  exit 2
fi
case "$mode" in
  replay) exec "$CARGO_TARGET_DIR/debug/$bin" --replay "$3" ;;
  thorough) exec "$CARGO_TARGET_DIR/debug/$bin" --tier thorough "${@:3}" ;;
  *) exec "$CARGO_TARGET_DIR/debug/$bin" --tier quick "${@:3}" ;;
esac
