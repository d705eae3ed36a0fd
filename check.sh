#!/bin/bash
# check.sh <ID> <quick|thorough>: rebuild from /repo, run the property's generated-input search.
cd "$(dirname "$0")" || exit 2
ID="$1"; TIER="${2:-${VERIF_TIER:-quick}}"
exec python3 check.py "$ID" "$TIER"
