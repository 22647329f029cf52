#!/bin/bash
# builds the verification condition generator when its sources are newer.
cd "$(dirname "$0")" || exit 2
. ./env.sh
mkdir -p bin evidence
if [ ! -x bin/govc ] || [ -n "$(find govc -newer bin/govc -type f)" ]; then
	(cd govc && go build -o ../bin/govc.$$ . && mv ../bin/govc.$$ ../bin/govc) || exit 2
fi
