#!/bin/bash
# build_s3.sh REPO OUTDIR : build kefir, its runtime and the generated-code simulator from REPO's working tree
set -e
REPO=$1; OUT=$2; HERE=$(cd "$(dirname "$0")/.." && pwd)
mkdir -p "$OUT/o"; OUT=$(cd "$OUT" && pwd); export OUT
( g++ -std=c++17 -O2 -g1 -w -fno-pie -fno-stack-protector -I"$HERE/gen" -c "$HERE/gen/gensim.cpp" -o "$OUT/harness.o" ) & HP=$!
cd "$REPO"
comp() { gcc -std=c11 -O1 -w -Werror=implicit-function-declaration -Iheaders -c "$1" -o "$OUT/o/$(echo "$1" | tr '/' '_').o" || { echo "BUILD-FAILED $1" >&2; exit 1; }; }
export -f comp
find source -name '*.c' -not -path 'source/tests/*' | sort | xargs -P "${VERIF_JOBS:-$(nproc)}" -n 4 bash -c 'for f in "$@"; do comp "$f" || exit 255; done' _
find source -name '*.s' -not -path 'source/tests/*' -not -path 'source/runtime/*' | sort | while read -r f; do
  gcc -c "$f" -o "$OUT/o/$(echo "$f" | tr '/' '_').o"; done
gcc -Wl,-z,noexecstack -o "$OUT/kefir" "$OUT"/o/*.o
"$OUT/kefir" --dump-runtime-code > "$OUT/runtime.s"
as -o "$OUT/runtime.o" "$OUT/runtime.s"
wait $HP
rm -rf "$OUT/o"
