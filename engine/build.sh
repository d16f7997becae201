#!/bin/bash
# builds the engine into $1
Z=/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3
D=$(dirname "$(readlink -f "$0")")
exec g++ -std=c++20 -O2 -g1 -I$Z/include "$D/symx.cpp" -o "$1" $Z/lib/libz3.so -Wl,-rpath,$Z/lib
