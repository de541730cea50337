#!/bin/bash
# cwd: /repo after the build
here=$(cd "$(dirname "$0")" && pwd); tmp=$(mktemp -d) || exit 2; trap 'rm -rf -- "$tmp"' EXIT
DEFS="-DHSMBUILD_DEBUGGING -DHSM_ENABLE_SAFE_STRUCTURE -DHSM_LOGGING_MODE_OFF -DPLATFORM_POSIX=1"
g++ -std=c++14 -O1 -g $DEFS -I"$PWD/include" -I"$PWD" "$here/demo.cpp" -o "$tmp/demo" "$PWD/_build/libhsmcpp_std.a" "$PWD/_build/libhsmcpp.a" -pthread || exit 2
cd "$tmp" && timeout 120 ./demo
