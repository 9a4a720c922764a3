#!/bin/bash
# builds the IR dumper (offline); everything else is interpreted or built per run
set -e
cd "$(dirname "$0")"
mkdir -p build
if [ ! -x build/irdump ] || [ engine/irdump.cpp -nt build/irdump ]; then
	clang++-18 -O1 -std=c++17 engine/irdump.cpp -o build/irdump.tmp.$$ $(llvm-config-18 --cxxflags | sed 's/-std=[^ ]*//') -fexceptions -w \
		$(llvm-config-18 --ldflags) -lLLVM-18
	mv build/irdump.tmp.$$ build/irdump
fi
