#!/bin/bash
# Warms the build cache with all builds of the monitors; the checks build again.
cd "$(dirname "$0")" || exit 1
for id in C01 C15 C22 C23; do
  ./check.sh "$id" -buildonly >/dev/null 2>&1 || true
done
exit 0
