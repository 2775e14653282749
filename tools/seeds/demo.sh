#!/bin/bash
# Builds demo.cpp with the library sources of the current directory (/repo) and
# runs it. Exit 0: behaves as promised.
d=$(cd "$(dirname "$0")" && pwd)
w=$(mktemp -d /tmp/dvo_demo.XXXXXX) || exit 3
trap 'find "$w" -delete' EXIT
ssl=/usr/lib/x86_64-linux-gnu/android
srcs=$(ls distributed_vector_ole/*.cpp distributed_vector_ole/internal/*.cpp | grep -v -e _test.cpp -e _benchmark.cpp)
absl=$(ls /usr/lib/x86_64-linux-gnu/libabsl_*.so | sed 's|.*/lib\(absl_[a-z0-9_]*\)\.so.*|-l\1|' | sort -u)
asm=-DUSE_ASM
grep -q PORTABLE "$d/demo.cpp" && asm=
flags="-std=c++17 -O1 -fopenmp -fwrapv -w $asm $(sed -n 's|^// FLAGS: ||p' "$d/demo.cpp")"
flags="$flags -I$d -I$d/shim -I$PWD -I/usr/include/android -I/usr/include/eigen3"
printf '%s\n' $srcs "$d/demo.cpp" | xargs -P 8 -I{} sh -c 'g++ '"$flags"' -c "$1" -o "'"$w"'/$(echo "$1" | md5sum | cut -c1-12).o"' _ {} || exit 4
g++ -fopenmp "$w"/*.o -o "$w/demo" -Wl,--start-group $absl -Wl,--end-group -lntl -lgmp -L$ssl -lcrypto -Wl,-rpath,$ssl -lboost_serialization -lpthread || exit 4
timeout 120 "$w/demo"
rc=$?
[ $rc = 0 ] && echo "demo: ok" || echo "demo: failed ($rc)"
exit $rc
