#!/bin/bash
# Runs demo.cpp (next to this file) against the sources in the current directory.  Everything happens in a scratch
# directory; the node's disk is a directory under /dev/shm (or /tmp) that the simulator creates and removes.
here=$(cd "$(dirname "$0")" && pwd)
w=$(mktemp -d /tmp/skdemo.XXXXXX) || exit 0
trap 'rm -rf "$w"' EXIT
cp -r "$here/kit/." "$w/" && cp "$here/demo.cpp" "$w/sim/s_demo.cpp" || exit 3
python3 "$w/demo_build.py" "$PWD" "$w" || exit 3
export SIM_NS=d$$
for s in ${SEEDS:-1}; do
  { printf "{\"plan\":"; "$w/demo" gen demo D demo quick $s; printf ",\"devs\":[]}"; } > "$w/plan.json" || exit 3
  for again in 1 2 3; do   # one seed is one execution: a failure that does not come back is not one
    timeout 120 "$w/demo" exec "$w/plan.json" --free --log > "$w/out" || exit 3
    head -c 1500 "$w/out"; echo
    grep -q '"outcome":"ok"' <(head -1 "$w/out") && continue 2
  done
  echo "demonstration failed (seed $s)"; exit 1
done
exit 0
