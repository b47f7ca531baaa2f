#!/bin/bash
# many.sh CONTRACT.cpp "PROOF cases..." ...: several proof instances in parallel, one line each (development aid)
c=$1; shift
cd "$(dirname "$0")/.."
set -- "$@"
first=(${1})
VF_T=1 python3-vt -m vf.one "$c" "${first[@]}" 2>&1 | grep -E "error:|BuildError" | head -5
for j in "$@"; do echo "$j"; done | C=$c xargs -P 8 -L1 sh -c 'o=$(VF_NOBUILD=1 python3-vt -m vf.one $C "$@" 2>&1 | tail -n +2 | sed "s/{.*//" | cut -c1-330 | head -${VF_LINES:-2}); echo "== $* :: $o"' x
