#!/bin/bash
# check.sh ID: decides one property on /repo's current working tree.
cd "$(dirname "$0")"
if [ ! -x bin/vengine ] || [ -n "$(find engine -newer bin/vengine -name '*.go' -print -quit)" ]; then
  bash setup.sh >&2 || exit 2
fi
exec bin/vengine check "$1"
