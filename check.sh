#!/bin/bash
# check.sh check PROPERTY quick|thorough  |  replay FILE  |  selftest [N]  |  build
cd "$(dirname "$0")" || exit 2
export VERIF_DIR="$PWD"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
mkdir -p .build || exit 2
d=$(mktemp -d .build/drv.XXXXXX) || exit 2
(cd sim/driver && go build -o "$VERIF_DIR/$d/driver" .) || { rm -rf "$VERIF_DIR/$d"; echo "check.sh: cannot build the driver" >&2; exit 2; }
"$d/driver" "$@"
rc=$?
rm -rf "$VERIF_DIR/$d"
exit $rc
