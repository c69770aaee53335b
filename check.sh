#!/bin/bash
# ./check.sh ID [--replay FILE]: builds the harness from /repo's working tree and decides property ID.
# Thorough: for the properties about money and stages the specification's own soundness is checked first (prove.sh).
cd "$(dirname "$0")" || exit 2
./setup.sh --build || exit 2
if [ "$2" = --replay ]; then exec node run/check.js --replay "$3"; fi
if [ "$1" = --replay ]; then exec node run/check.js --replay "$2"; fi
case "$VERIF_TIER $1" in "thorough C"0[1237]|"thorough C"1[2-8]|"thorough C"2[12])
  DBC_PROVED=$(./prove.sh 50) || { echo "$DBC_PROVED"; echo "the specification itself does not hold" >&2; exit 2; }
  export DBC_PROVED DBC_SECONDS=${DBC_SECONDS:-560} ;;
esac
exec node --max-old-space-size=3000 run/check.js "$1"
