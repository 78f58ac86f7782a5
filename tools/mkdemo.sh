#!/bin/bash
# mkdemo.sh ID : (re)creates seeded/ID/kit and demo.sh from the current simulator; seeded/ID/demo.cpp holds the demonstration
set -e
V=$(cd "$(dirname "$0")/.." && pwd); d=$V/seeded/$1; mkdir -p $d/kit/lib $d/kit/sim
cp -r $V/shim $V/gen_headers.sh $d/kit/; cp $V/lib/build.py $d/kit/lib/; cp $V/tools/demo_build.py $d/kit/
cp $V/sim/{rt.cpp,rt.h,ext.cpp,ext.h,net.cpp,mining_stub.cpp,scn.h,main.cpp,node.cpp,node.h} $d/kit/sim/
seeds=$(grep -s "^SEEDS=" $d/demo.sh || true)
awk -v s="$seeds" '/^export SIM_NS/ && s { print s } { print }' $V/tools/demo.sh > $d/demo.sh; chmod +x $d/demo.sh
for h in chain_demo.h snap_demo.h; do if grep -q $h $d/demo.cpp; then cp $V/tools/$h $d/kit/sim/; fi; done
if grep -q peers.h $d/demo.cpp; then cp $V/sim/peers.h $d/kit/sim/; fi
exit 0
