#!/bin/bash
# setup_cmd: builds the checker and warms the Go build cache for the native replay binaries
cd "$(dirname "$0")"
./build.sh || exit 1
for h in harness/C*; do
  compgen -G "$h/*.py" >/dev/null && continue
  ./bin/vfcheck -prop "$(basename "$h")" -warm >/dev/null || echo "warm-up of $h failed"
done
exit 0
