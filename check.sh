#!/bin/bash
# check.sh PROPERTY TIER: decides one property on /repo's current source
here="$(cd "$(dirname "$0")" && pwd)"
. /opt/vp/env.sh
if [ ! -x "$here/bin/aitchcheck" ]; then
  (cd "$here/tool" && go build -o "$here/bin/aitchcheck" .) || exit 1
fi
mkdir -p "$here/evidence"
exec "$here/bin/aitchcheck" -repo /repo -out "$here" -prop "$1" -tier "${2:-quick}"
