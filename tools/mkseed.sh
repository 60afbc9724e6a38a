#!/bin/bash
# mkseed.sh ID: puts the demonstration kit beside a planted bug's files
V=$(cd "$(dirname "$0")/.." && pwd); D=$V/seeded/$1; mkdir -p "$D"
cp $V/tools/demokit/{compile.sh,kit.py,demo.sh,cells.py} $V/monitors/{dyablo_mon.cpp,vp_dump.h,vp_plugins.h} $V/lib/{vpgrid.py,vph5.py} "$D"/
