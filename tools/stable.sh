#!/bin/bash
# usage: stable.sh TREE SCRATCH    build TREE's tests in SCRATCH and check that the stable ones pass (experiments only)
set -u
r=$1; t=$2; mkdir -p "$t"; cp -r /opt/vp/cmake "$t/cm"; sed -i "s|set(REPO /repo)|set(REPO $r)|" "$t/cm/CMakeLists.txt"
export CC=gcc CXX=g++ OMP_NUM_THREADS=1
cmake -S "$t/cm" -B "$t/b" -G Ninja -DCMAKE_BUILD_TYPE= -DNLopt_DIR=/usr/lib/x86_64-linux-gnu/cmake/nlopt_cxx >"$t/log" 2>&1 || exit 1
ninja -C "$t/b" -j8 >>"$t/log" 2>&1 || { grep -m3 error "$t/log"; exit 1; }
cd "$t/b" && mkdir -p rep && ctest -j8 --timeout 300 --output-junit rep/main.xml >>"$t/log" 2>&1
sed -i 's/ classname="[^"]*"//' rep/*.xml
python3 /opt/vp/results.py "$t/out.json" "junit:$t/b/rep/*.xml" >>"$t/log" 2>&1
python3 - "$t/out.json" <<'P'
import json,sys
o=json.load(open(sys.argv[1])); s=set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
m=s-set(o['passed'])
if m: print('not passing:',sorted(m)[:5]); sys.exit(1)
P
