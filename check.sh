#!/bin/bash
# check.sh ID [--thorough]: decides one property (see DESIGN.md).
cd "$(dirname "$0")" || exit 2
. ./env.sh
export VERIF_ROOT="$PWD"
[ -x bin/gosym ] || ./setup.sh >&2 || exit 2
exec bin/gosym check "$@"
