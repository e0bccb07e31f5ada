#!/bin/bash
# builds the analysis tools (IR exporter and polyhedra library) from the committed sources
set -e
cd "$(dirname "$0")"
mkdir -p build evidence
LC=/usr/lib/llvm-18/bin/llvm-config
g++ -O3 -shared -fPIC -o build/libpoly.so.tmp engine/poly.cpp
mv build/libpoly.so.tmp build/libpoly.so
g++ -O1 -std=c++17 engine/exporter.cpp -o build/irdump.tmp \
  $($LC --cxxflags --ldflags --libs core irreader passes analysis bitreader | tr '\n' ' ') -fexceptions
mv build/irdump.tmp build/irdump
g++ -O0 -std=c++17 engine/asttool.cpp -o build/asttool.tmp \
  $($LC --cxxflags --ldflags | tr '\n' ' ') "$($LC --libdir)/libclang-cpp.so.18.1" $($LC --libs core support) -fexceptions
mv build/asttool.tmp build/asttool
echo ok
