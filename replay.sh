#!/bin/bash
# replay.sh PROPERTY...: run the concrete drivers of a property on /repo.
cd "$(dirname "$0")" || exit 2
. ./env.sh
./build.sh || exit 2
for p in "$@"; do bin/govc -repo "${VERIF_REPO:-/repo}" -verif "$PWD" -replay $p || echo "REPLAY FAILS $p"; done
