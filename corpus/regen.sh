#!/bin/bash
# Regenerates the frozen corpus inputs (not run by checks).
set -eu
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
t=$(mktemp -d)
echo "{\"Replace\":{\"/repo/zz_dump/main.go\":\"$here/gen/main.go\"}}" > "$t/ov.json"
cd /repo && go run -overlay "$t/ov.json" ./zz_dump "$here/exports.gob.gz"
