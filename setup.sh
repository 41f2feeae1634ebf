#!/bin/bash
# builds the IR dumper (C++ against the installed LLVM 18) into /verif/build
set -e
cd "$(dirname "$0")"
mkdir -p build evidence
if [ ! -x build/irdump ] || [ tool/irdump.cpp -nt build/irdump ]; then
  g++ -O1 -std=c++17 $(/usr/bin/llvm-config-18 --cxxflags) tool/irdump.cpp -o build/irdump.tmp \
    $(/usr/bin/llvm-config-18 --ldflags --libs core irreader passes bitreader support --system-libs --link-shared)
  mv build/irdump.tmp build/irdump
fi
