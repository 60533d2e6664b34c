#!/bin/bash
# cwd: the repository. Builds its library with demo.cpp and runs it; 0 when the property is kept.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
tmp=$(mktemp -d) || exit 3
trap 'rm -rf "$tmp"' EXIT
export TMPDIR="$tmp"
flags="-g -O0 -w -fsanitize=address,undefined -fno-sanitize-recover=all @EXTRA@"
inc="-I$repo/code -I$here/shim"
srcs=$(find "$repo/code/dynamix" -name '*.cpp' | sort)
csrcs=$(find "$repo/code/dnmx" -name '*.c' | sort)
if [ -e "$here/v1gen.py" ]; then
    python3 "$here/v1gen.py" "$repo/v1compat/gen" "$tmp/gen" >/dev/null || exit 3
    inc="$inc -I$repo/v1compat/code -I$tmp/gen"
    srcs="$srcs $(find "$repo/v1compat/code" -name '*.cpp' | sort)"
fi
{ n=0
for f in $srcs "$here"/demo*.cpp; do n=$((n+1)); echo "g++ -std=c++17 $flags $inc -I$here -c $f -o $tmp/$n.o"; done
for f in $csrcs; do n=$((n+1)); echo "gcc -std=c11 $flags $inc -c $f -o $tmp/$n.o"; done
} > "$tmp/jobs"
xargs -P 8 -d '\n' -n 1 sh -c < "$tmp/jobs" > "$tmp/log" 2>&1 || { tail -30 "$tmp/log"; exit 3; }
g++ $flags "$tmp"/*.o -o "$tmp/demo" -lpthread || exit 3
cd "$tmp"
export ASAN_OPTIONS=detect_leaks=0
timeout 200 ./demo
rc=$?
[ $rc = 0 ] && echo "kept" || echo "broken ($rc)"
exit $rc
