#!/bin/bash
# setup: build the generator and check that the contracts load.
cd "$(dirname "$0")" || exit 2
. ./env.sh
./build.sh || exit 2
z3-new --version >/dev/null || exit 2
bin/govc -repo "${VERIF_REPO:-/repo}" -verif "$PWD" -list
