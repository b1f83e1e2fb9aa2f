#!/bin/bash
# Warms the build cache and checks that the simulation can be built.
set -eu
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
export VERIF_DIR="$here" REPO_DIR="${REPO_DIR:-/repo}"
d=$(mktemp -d "${TMPDIR:-/tmp}/gosec-setup-XXXXXX")
trap 'rm -r "$d"' EXIT
(cd "$here/tool" && go build -o "$d/simctl" ./simctl)
"$d/simctl" build "$d/b" | head -1
