#!/bin/bash
# build.sh OUT: compile the engine
set -e
d=$(dirname "$0")
clang++-18 -std=c++20 -O2 -o "$1" "$d/ksym.cc" $(/usr/lib/llvm-18/bin/llvm-config --cxxflags | sed 's/-std=[^ ]*//;s/-fno-exceptions//') -fexceptions -I"$d" -L/usr/lib/llvm-18/lib -lLLVM-18 -lz3 
