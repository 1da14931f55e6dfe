#!/bin/sh
# Builds the native seams (numpy allocator, bit generator, disk) from committed
# sources.  Idempotent.
set -e
cd "$(dirname "$0")"
mkdir -p build
for n in alloc bitgen iofault; do
    if [ ! -f build/$n.so ] || [ sim/$n.c -nt build/$n.so ]; then
        gcc -O2 -fPIC -shared -o build/$n.so.$$ sim/$n.c -ldl
        mv build/$n.so.$$ build/$n.so
    fi
done
