#!/bin/bash
# Nothing to build ahead: every check builds the code under test itself.
cd "$(dirname "$0")" || exit 1
. /opt/vp/env.sh
command -v java >/dev/null || exit 1
"$PY" -c 'import numpy' || exit 1
for m in spec/*.tla; do
  out=$(cd spec && java -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY "$(basename "$m")" 2>&1) || { echo "$out"; exit 1; }
done
exit 0
