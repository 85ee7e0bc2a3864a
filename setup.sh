#!/bin/bash
# Builds the analyzer from the committed sources.
cd "$(dirname "$0")" || exit 1
. ./env.sh
mkdir -p evidence .bin
exec go build -o .bin/analyzer ./analyzer
