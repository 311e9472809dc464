#!/bin/bash
# check.sh PROPERTY [quick|thorough]: decide one property on /repo's working tree.
cd "$(dirname "$0")" || exit 2
./setup.sh || exit 2
exec ./bin/vsymgo -verif "$PWD" -repo /repo -prop "$1" -tier "${2:-${VERIF_TIER:-quick}}"
