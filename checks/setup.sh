#!/bin/bash
# Builds what the checks need and shows that the tools are there; each check builds again by itself.
set -e
here=$(cd "$(dirname "${BASH_SOURCE[0]}")/.." && pwd)
. /opt/vp/env.sh
bash /opt/vp/build.sh --extensions >/dev/null
mkdir -p "$here/build"
gcc -O2 -fPIC -shared -w -o "$here/build/simio.so" "$here/shim/simio.c" -ldl
"$PY" -c "import numpy, h5py, astropy, pyuvdata; print('ok', pyuvdata.__file__)"
