#!/bin/bash
# Build the rustc driver and the engine into .build (offline), if they are missing or out of date.
set -e
cd "$(dirname "$0")"
mkdir -p .build
sum=$(cat driver/*.rs engine/*.rs build.sh | sha256sum | cut -c1-32)
if [ ! -x .build/driver ] || [ ! -x .build/engine ] || [ "$(cat .build/sum 2>/dev/null)" != "$sum" ]; then
    rm -f .build/sum
    (rustc +nightly --edition 2024 -O driver/main.rs -o .build/driver -A warnings >.build/driver.log 2>&1) &
    a=$!
    (rustc --edition 2021 -O engine/main.rs -o .build/engine -A warnings >.build/engine.log 2>&1) &
    b=$!
    wait $a || { cat .build/driver.log >&2; exit 2; }
    wait $b || { cat .build/engine.log >&2; exit 2; }
    echo "$sum" >.build/sum
fi
