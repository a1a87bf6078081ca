#!/bin/bash
# add_fixed.sh COMMIT PROPERTY: record a fix of /repo in KNOWN_FINDINGS
cd "$(dirname "$0")/.." || exit 1
echo "fixed: property=$2 $(git -C /repo log -1 --format='%h %s' "$1" | sed 's/ fix:/ broken before it:/')" >> KNOWN_FINDINGS
