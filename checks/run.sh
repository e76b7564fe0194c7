#!/bin/bash
# run.sh <property> [quick|thorough]      run one check against /repo's working tree
# run.sh --cmd <subcommand> args...       anything else of the engine (replay, explore)
here=$(cd "$(dirname "${BASH_SOURCE[0]}")/.." && pwd)
. /opt/vp/env.sh
work=$(mktemp -d /tmp/vcheck.XXXXXX) || exit 3
trap 'rm -rf "$work"' EXIT
mkdir -p "$work/cache/astropy" "$here/build"
export XDG_CACHE_HOME=$work/cache
if ! bash /opt/vp/build.sh --extensions >"$work/build.log" 2>&1; then
  tail -20 "$work/build.log"; echo "the extensions do not build"; exit 3
fi
gcc -O2 -fPIC -shared -w -o "$work/simio.so" "$here/shim/simio.c" -ldl || exit 3
export PYTHONPATH=$here
cd "$work" || exit 3
if [ "$1" = --cmd ]; then shift; set -- "$@"; else set -- check "$1" "${2:-${VERIF_TIER:-quick}}"; fi
LD_PRELOAD=$work/simio.so "$PY" -m dst "$@"
