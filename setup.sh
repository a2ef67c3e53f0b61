#!/bin/bash
# Builds the checker from the committed files (offline).
set -eu
cd "$(dirname "$0")"
. ./env.sh
mkdir -p bin evidence
(cd engine && go build -o ../bin/gosym .)
bin/gosym gen
(cd harness && go build ./... )
