#!/bin/bash
# Builds demo.cpp against the library as built in /repo/_build, and runs it under wine in a scratch prefix.
D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d) || exit 3
export WINEPREFIX=$T/wine WINEDEBUG=-all WINEDLLOVERRIDES="mscoree=;mshtml=;winemenubuilder.exe=;winedbg.exe="
trap '/usr/lib/wine/wineserver64 -k 2>/dev/null; rm -rf "$T"' EXIT
cp -a /opt/vp/wine "$T/wine" || exit 3
F=$(sed -n 's/^flags = //p' _build/build.ninja)
clang++ $F -I"$PWD/CEX" -c "$D/demo.cpp" -o "$T/demo.o" || exit 3
x86_64-w64-mingw32-g++-posix -static -o "$T/demo.exe" "$T/demo.o" _build/libCEX.a -Wl,--stack,16777216 -lws2_32 -liphlpapi -lcrypt32 -lnetapi32 -lpsapi -ladvapi32 -lole32 2>"$T/link.log" || { cat "$T/link.log"; exit 3; }
cd "$T" && timeout 200 /usr/lib/wine/wine64 demo.exe
