#!/bin/bash
# check.sh ID            rebuild from /repo's working tree and check property ID
# check.sh --replay FILE rebuild and replay one recorded violation
# Environment: VERIF_SEED (default 1), VERIF_TIER (quick or thorough).
cd "$(dirname "$0")" || exit 3
. /opt/vp/env.sh
bash ./build.sh || { echo "check.sh: the harness does not build" >&2; exit 3; }
if [ "$1" = --replay ]; then
	exec ./.build/harness replay -v "$2"
fi
deep=
[ "$VERIF_TIER" = thorough ] && deep=-deep
exec ./.build/harness check -prop "$1" -seed "${VERIF_SEED:-1}" $deep
