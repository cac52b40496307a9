#!/bin/bash
# check.sh <property> [quick|thorough]: decide one property on /repo's current tree.
here=$(cd "$(dirname "$0")" && pwd)
. "$here/env.sh"
export VERIF_DIR=$here
bin=$here/build/gosym
if [ ! -x "$bin" ] || [ -n "$(find "$here/engine" -newer "$bin" -name '*.go' -print -quit)" ]; then
  "$here/setup.sh" >&2 || exit 2
fi
exec "$bin" check -prop "$1" -tier "${2:-quick}"
