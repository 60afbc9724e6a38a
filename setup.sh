#!/bin/bash
# Builds the monitors against /repo's working tree in every variant the checks use (see lib/vpbuild.py)
cd "$(dirname "$0")" || exit 1
for v in rel asan; do python3-vt lib/vpbuild.py $v all_monitors || exit 1; done
python3-vt lib/vpbuild.py tsan dyablo_mon mon_cells mon_mesh || exit 1
