#!/bin/bash
# developer helper: build, then run simrun with the given arguments
cd "$(dirname "$0")" || exit 2
read -r SIM LIB _ < <(python3 -m vlib.build | tail -1)
[ -n "$SIM" ] || exit 2
m=$1; shift
exec "$SIM" "$m" --libdir "$LIB" "$@"
