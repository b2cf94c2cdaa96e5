#!/bin/bash
# replay.sh <driver> <case> <seed> <tier> <spec> [driver args]: run one case again and validate it
cd "$(dirname "$0")/.." || exit 3
d=$1; c=$2; s=$3; t=$4; sp=$5; shift 5
python3 tools/build.py "$d" || exit 3
f=$(mktemp /tmp/replay.XXXXXX.ndjson)
build/bin/"$d" --from "$c" --to "$c" --seed "$s" --tier "$t" --stderr "$@" > "$f"
python3 tools/summ.py "$f"; python3 tools/why.py "$f" "$sp"; echo "trace: $f"
