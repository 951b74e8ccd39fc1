#!/bin/bash
# build_tools.sh REPO OUTDIR [asan] : compiles the real tools of REPO's working tree as shared
# objects whose libc I/O calls are redirected into the simulator.
set -e
REPO=$1 OUT=$2 MODE=$3
HERE=$(cd "$(dirname "$0")" && pwd)
mkdir -p "$OUT/tools"
SAN=""; [ "$MODE" = asan ] && SAN="-fsanitize=address -fsanitize-recover=address"
CF="-std=gnu11 -O1 -g0 -fPIC -fno-builtin -fno-stack-protector -fcf-protection=none -U_FORTIFY_SOURCE -w -fsanitize-coverage=trace-pc -fsanitize=bounds,object-size -fsanitize-trap=all $SAN -I$REPO"
one() {
    t=$1 n=$2 src=${3:-$1} xf=$4; o=$OUT/tools/$t
    key=$( (cat "$REPO/$src.c" "$REPO/lib.h" "$HERE/tool.syms" "$HERE/build_tools.sh" "$HERE"/win/*.h; echo "$MODE $xf") | sha256sum)
    if [ -f "$o.key" ] && [ "$key" = "$(cat "$o.key")" ] && [ -f "$o.$((n-1)).so" ]; then return; fi
    rm -f "$o.key"
    gcc $CF $xf -c "$REPO/$src.c" -o "$o.o"
    objcopy --redefine-syms="$HERE/tool.syms" "$o.o"
    gcc -shared $SAN -Wl,-z,now,-z,norelro,-Bsymbolic "$o.o" -o "$o.0.so"
    for ((i=1;i<n;i++)); do cp "$o.0.so" "$o.$i.so.tmp"; mv "$o.$i.so.tmp" "$o.$i.so"; done
    echo "$key" > "$o.key"
}
one scc 4 & one scpp 4 & one sas 4 & one sim86 2 &
one winswar 1 swar "-D_WIN32 -I$HERE/win" &
rc=0; for j in $(jobs -p); do wait $j || rc=1; done
exit $rc
