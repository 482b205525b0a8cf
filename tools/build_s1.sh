#!/bin/bash
# build_s1.sh REPO OUTDIR : build the compile simulator from REPO's working tree into OUTDIR
set -e
REPO=$1; OUT=$2; HERE=$(cd "$(dirname "$0")/.." && pwd)
mkdir -p "$OUT/o"; OUT=$(cd "$OUT" && pwd)
cd "$REPO"
KF="-std=c11 -O1 -g1 -w -Werror=implicit-function-declaration -fno-omit-frame-pointer -fno-optimize-sibling-calls -mno-omit-leaf-frame-pointer -fno-pie -fsanitize=address -fno-sanitize-address-use-odr-indicator -fsanitize-coverage=trace-pc-guard -mllvm -asan-stack=1 -Iheaders"
export KF OUT
find source -name '*.c' -not -path 'source/tests/*' | sort > "$OUT/srcs"
comp() { f=$1; o="$OUT/o/$(echo "$f" | tr '/' '_').o"; x=""; case "$f" in source/main/*) x="-Dmain=kefir_cli_main";; esac
  clang $KF $x -c "$f" -o "$o" || { echo "BUILD-FAILED $f" >&2; exit 1; }; }
export -f comp
xargs -P "${VERIF_JOBS:-$(nproc)}" -n 4 bash -c 'for f in "$@"; do comp "$f" || exit 255; done' _ < "$OUT/srcs"
i=0
find source -name '*.s' -not -path 'source/tests/*' -not -path 'source/runtime/*' | sort | while read -r f; do
  clang -c "$f" -o "$OUT/o/$(echo "$f" | tr '/' '_').o"; done
SF="-O2 -g1 -fno-omit-frame-pointer -fno-pie -w"
mkdir -p "$OUT/e"
for x in "$HERE"/sim/*.cpp; do clang++ -std=c++17 $SF -Iheaders -c "$x" -o "$OUT/e/$(basename "$x").o" & done
for x in "$HERE"/sim/*.c; do clang -std=c11 $SF -D_GNU_SOURCE -Iheaders -I"$HERE/sim" -c "$x" -o "$OUT/e/$(basename "$x").o" & done
wait
for x in "$HERE"/sim/*.cpp "$HERE"/sim/*.c; do test -f "$OUT/e/$(basename "$x").o" || exit 1; done
for m in begin end; do echo "_Thread_local char ksim_tbss_$m[16]; _Thread_local char ksim_tdata_$m[16] = {1};" | clang -x c -O1 -fno-pie -c - -o "$OUT/tls_$m.o"; done
ld -r -z noexecstack -o "$OUT/kefir_all.o" "$OUT/tls_begin.o" "$OUT"/o/*.o "$OUT/tls_end.o"
nm "$OUT/e/engine.cpp.o" | awk '$3 ~ /^ksim_libc_/ {n=$3; sub(/^ksim_libc_/,"",n); print n, $3}' | grep -v -E '^(stdin_|stdout_|stderr_) ' > "$OUT/redir"
printf 'stdin ksim_libc_stdin_\nstdout ksim_libc_stdout_\nstderr ksim_libc_stderr_\n' >> "$OUT/redir"
REN=$(objdump -h "$OUT/kefir_all.o" | awk '$2 ~ /^\.data\./ && $2 !~ /^\.data\.rel\.ro/ {print "--rename-section " $2 "=kefir_data"} $2 ~ /^\.bss(\.|$)/ {print "--rename-section " $2 "=kefir_bss"}' | sort -u)
objcopy $REN --redefine-syms="$OUT/redir" "$OUT/kefir_all.o" "$OUT/kefir_sim.o"
clang++ -no-pie -Wl,-z,noexecstack -fsanitize=address -o "$OUT/ksim" "$OUT"/e/*.o "$OUT/kefir_sim.o" -lpthread
rm -rf "$OUT"/tls_*.o "$OUT/o" "$OUT/e" "$OUT/kefir_all.o" "$OUT/kefir_sim.o"
