#!/bin/bash
# check.sh PROPERTY: decide one property for /repo's current working tree.
cd "$(dirname "$0")" || exit 2
id=$1
rm -f "evidence/$id.json" "evidence/$id.violations.txt"
./build.sh || exit 2
./facts.sh || exit 2
ulimit -v 24000000
exec timeout 700 .build/engine "$id" .build/facts "$PWD"
