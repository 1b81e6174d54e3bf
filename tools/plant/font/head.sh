#!/bin/bash
# Exits 0 if the font converter behaves as the property says. Run with cwd = the repository.
D=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d) || exit 3
trap 'rm -rf "$W"' EXIT
g++ -std=c++17 -w -g -I. -Igfx-font-converter -I/usr/include/freetype2 -I/usr/include/libpng16 gfx-font-converter/*.cpp BufferedOut.cpp -lfreetype -o "$W/conv" || exit 4
gcc -shared -fPIC -w "$D/fault.c" -o "$W/fault.so" -ldl || exit 4
cp "$D/font.bdf" "$W/font.bdf"
cd "$W" && mkdir out ref
conv() { timeout 20 ./conv -f font.bdf -d 72 -s 8 "$@"; }
