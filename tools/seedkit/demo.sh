#!/bin/bash
# builds the program beside this file against the build in the working directory
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
B=_build/src
r=$PWD
g++ -std=c++14 -O1 -w -I"$d" -Isrc -Ilibs -I$B -I$B/core -I$B/core/cfg -I$B/jumandic/gen "$d/demo.cc" \
    -Wl,--start-group $B/core/training/libjpp_core_train.a $B/core/libjpp_core.a $B/util/libjpp_util.a \
    $(ls $B/rnn/libjpp_rnn.a _build/libs/pathie-cpp/libpathie.a 2>/dev/null) -Wl,--end-group -lpthread -o "$t/demo" || exit 2
cd "$t" && timeout 120 ./demo "$r"
