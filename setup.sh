#!/bin/bash
# Builds every harness crate once, offline.
cd "$(dirname "$0")" || exit 3
. ./env.sh
for c in $(awk '{print $2}' checks.map | sort -u); do
  (cd "h/$c" && cargo build --offline -q) || exit 1
done
