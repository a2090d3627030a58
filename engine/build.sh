#!/bin/bash
# builds the engine into $1 (default /verif/build)
set -e
D=$(cd "$(dirname "$0")" && pwd); O=${1:-$D/../build}; mkdir -p "$O"
LC=/usr/lib/llvm-18/bin/llvm-config
( g++ -std=c++17 -O2 -c "$D/expr.cc" -o "$O/expr.o" ) & a=$!
( g++ -std=c++17 -O2 -c "$D/exec.cc" -o "$O/exec.o" ) & b=$!
( g++ -std=c++17 -O1 $($LC --cxxflags) -fexceptions -w -c "$D/ir.cc" -o "$O/ir.o" ) & c=$!
wait $a; wait $b; wait $c
g++ "$O/expr.o" "$O/exec.o" "$O/ir.o" -o "$O/ksym.tmp.$$" $($LC --ldflags --libs) -lz3
mv "$O/ksym.tmp.$$" "$O/ksym"
