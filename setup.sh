#!/bin/bash
# setup.sh: builds everything once (checks rebuild what they need themselves).
V=$(cd "$(dirname "$0")" && pwd)
for g in hd svc eco; do
  [ -d "$V/go/cmd/$g" ] || continue
  "$V/build.sh" $g || exit 1
done
