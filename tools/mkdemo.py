#!/usr/bin/env python3
"""Copies what a demonstration of a planted bug needs (simulated ports and devices, the shim) beside it, so that
its folder stands alone: mkdemo.py ID...   (seeded/ID/demo.cpp is written by hand)"""
import os
import shutil
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# Run in the repository after the build; exit 0 when the behaviour is right.
# Compiles the program's sources with the simulated port and devices beside this file and runs demo.cpp.
here=$(cd "$(dirname "$0")" && pwd)
k="$here/kit"
out=$(mktemp -d)
trap 'rm -rf "$out"' EXIT
f="-O0 -w -std=c++20 -DNDEBUG -Isrc -I$k/shim/include -I$k/shim/include/gurux -I$k/shim/include/wblib -I$k/harness"
printf '#define WBMQTT_COMMIT "x"\n#define WBMQTT_VERSION "x"\n#include "pch.h"\n' > "$out/all.h"
clang++ $f -fpch-instantiate-templates -x c++-header "$out/all.h" -o "$out/p.pch" || exit 3
srcs=$(find src -name '*.cpp' ! -path src/main.cpp ! -name dlms_device.cpp)
for s in $srcs "$k"/shim/src/{json,json_utils,shim,dlms_stub}.cpp "$k"/harness/{mon,sim,sys}.cpp "$here/demo.cpp"; do
    echo "$s"
done | xargs -P 8 -I{} sh -c 'clang++ '"$f"' -include-pch '"$out"'/p.pch -c "{}" -o '"$out"'/$(echo "{}" | tr / _).o || touch '"$out"'/failed'
[ -e "$out/failed" ] && exit 3
clang++ "$out"/*.o -o "$out/demo" -lpthread -lcurl || exit 3
timeout 100 "$out/demo" DEMO 1 0 1 1 "$out/log" "$out/scratch" "repo=$PWD" > "$out/stdout" 2> "$out/stderr"
grep '"t":"V"' "$out/log" && exit 1
grep -q '"t":"E"' "$out/log" || exit 1
exit 0
'''
for bug in sys.argv[1:]:
    d = os.path.join(V, 'seeded', bug)
    k = os.path.join(d, 'kit')
    shutil.rmtree(k, ignore_errors=True)
    shutil.copytree(os.path.join(V, 'shim'), os.path.join(k, 'shim'))
    os.makedirs(os.path.join(k, 'harness'))
    for h in ('mon.cpp', 'mon.h', 'pch.h', 'pch_native.h', 'sim.cpp', 'sim.h', 'sys.cpp', 'sys.h'):
        shutil.copy(os.path.join(V, 'harness', h), os.path.join(k, 'harness', h))
    with open(os.path.join(d, 'demo.sh'), 'w') as f:
        f.write(DEMO)
    os.chmod(os.path.join(d, 'demo.sh'), 0o755)
