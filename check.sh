#!/bin/bash
# check.sh PROPERTY [quick|thorough]: verify the contracts of one property
# against /repo's current source.
cd "$(dirname "$0")" || exit 2
. ./env.sh
./build.sh || exit 2
exec bin/govc -repo "${VERIF_REPO:-/repo}" -verif "$PWD" -prop "$1" -tier "${2:-quick}"
