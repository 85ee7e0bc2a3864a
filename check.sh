#!/bin/bash
# usage: check.sh PROPERTY   (run in /verif)
# Builds the analyzer from the committed sources and analyses /repo's current tree.
cd "$(dirname "$0")" || exit 2
. ./env.sh
export VERIF_DIR="${VERIF_DIR:-$PWD}"
mkdir -p evidence .bin
bin="$PWD/.bin/analyzer"
if ! go build -o "$bin" ./analyzer; then
  echo "cannot build the analyzer"; exit 2
fi
exec "$bin" "$1"
