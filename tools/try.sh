#!/bin/bash
# try.sh HARNESSES [SECONDS] [extra symex args]: build the IR and explore (development aid)
V="$(cd "$(dirname "$0")/.." && pwd)"; B="${KX_BUILD:-$V/build}"
$V/tools/build.sh ir 2>&1 | grep -E "^error" -A9 && exit 1
H=$1; T=${2:-60}; shift 2
$B/engine/release/symex --ll $B/hx.ll --harness $H --time $T --threads 8 --out /tmp/try.json "$@"
