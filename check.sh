#!/bin/bash
# check.sh <property> [tier]: decides one property on /repo's current source.
cd "$(dirname "$0")" || exit 2
tier=${2:-${VERIF_TIER:-quick}}
./build.sh || exit 2
exec ./bin/vtool -root /repo -verif "$PWD" -check "$1" -tier "$tier"
