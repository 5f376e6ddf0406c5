#!/bin/bash
# run.sh PROPERTY [args]   builds the simulator from the current tree of /repo and runs one property's check.
# run.sh replay FILE       executes a replay file; run.sh selfcheck PROPERTY  compares logs at several worker counts.
here="$(cd "$(dirname "$0")" && pwd)"
bin="$("$here/sim/build.sh")" || { echo "harness error: build failed" >&2; exit 2; }
case "$1" in
  replay|selfcheck|probe|texts|lex|run) exec "$bin" "$@" ;;
esac
prop="$1"; shift
exec "$bin" check "$prop" --root "$here" "$@"
