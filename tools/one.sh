#!/bin/bash
# tools/one.sh HARNESS CASE [flags]: one job, verbosely.
cd "$(dirname "$0")/.."
. ./env.sh
export VERIF_ROOT="$PWD"
(cd harness && go build -o ../bin/replay ./cmd/replay) || exit 2
h=$1 c=$2; shift 2
exec bin/gosym run -v -h "$h" -case "$c" -replay "$PWD/bin/replay" -out /tmp/one.json "$@"
