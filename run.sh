#!/bin/bash
# run.sh ID [quick|thorough]   check one property
# run.sh replay FILE           replay a violation
set -u
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
export VERIF_DIR="$here" REPO_DIR="${REPO_DIR:-/repo}"
bin=$(mktemp -d "${TMPDIR:-/tmp}/simctl-XXXXXX") || exit 3
trap 'rm -r "$bin"' EXIT
(cd "$here/tool" && go build -o "$bin/simctl" ./simctl) || exit 3
if [ "$1" = replay ]; then "$bin/simctl" replay "$2"; else "$bin/simctl" check "$@"; fi
exit $?
