#!/bin/bash
# Nothing to prepare: every check builds what it needs. Only verifies that the tools are there.
set -e
for t in g++ clang++ python3-vt prlimit; do command -v $t > /dev/null || { echo "missing $t"; exit 1; }; done
python3-vt -c 'import numpy'
echo "#include <zlib.h>
int main () { return zlibVersion () == nullptr; }" | g++ -x c++ - -o /dev/null -lz
echo ok
