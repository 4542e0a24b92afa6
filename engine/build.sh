#!/bin/bash
# builds the extractor (a libTooling front end) into /verif/build
set -e
cd "$(dirname "$0")"
mkdir -p ../build
if [ ! -x ../build/extract ] || [ extract.cpp -nt ../build/extract ]; then
    clang++-18 -std=c++17 -O1 -fno-rtti -w $(llvm-config-18 --cxxflags | sed 's/-std=[^ ]*//') extract.cpp \
        -o ../build/extract.tmp.$$ /usr/lib/llvm-18/lib/libclang-cpp.so.18.1 $(llvm-config-18 --ldflags --libs support)
    mv ../build/extract.tmp.$$ ../build/extract
fi
