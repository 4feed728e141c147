#!/bin/bash
# run every registered check; arguments are passed on (e.g. --thorough)
cd "$(dirname "$0")/.." || exit 1
for f in vmon/props/c??.py; do
  id=$(basename $f .py | tr a-z A-Z)
  ./check $id "$@" 2>&1 | cut -c1-300
done
