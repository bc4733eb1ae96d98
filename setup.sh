#!/bin/bash
# Build the tools and warm the dependency cache.
cd "$(dirname "$0")" && ./build.sh && ./facts.sh
