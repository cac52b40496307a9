#!/bin/bash
# Builds the engine from the committed sources (offline).
here=$(cd "$(dirname "$0")" && pwd)
. "$here/env.sh"
mkdir -p "$here/build"
cd "$here/engine" && go build -o "$here/build/gosym.tmp" . && mv "$here/build/gosym.tmp" "$here/build/gosym"
