#!/bin/bash
# compile.sh SRC EXE: builds a small program against the libraries of /repo/_build, with the flags dyablo itself is built with
set -e
SRC=$(readlink -f "$1"); EXE=$2; HERE=$(dirname "$SRC")
python3 - "$SRC" "$EXE" "$HERE" <<'PY'
import json, os, shlex, subprocess, sys
src, exe, here = sys.argv[1:4]
b = os.path.join(os.getcwd(), "_build")
cc = [c for c in json.load(open(b + "/compile_commands.json")) if c["file"].endswith("core/src/dyablo_main.cpp")][0]
a = shlex.split(cc["command"])
obj = a[a.index("-o") + 1]
a[a.index("-o") + 1] = exe + ".o"
a = [src if x == cc["file"] else x for x in a if x != "-O3"]
subprocess.run(a + ["-O1", "-w", "-I" + here, "-I" + b.replace("/_build", "/core/src")], cwd=cc["directory"], check=True)
link = [l for l in subprocess.run(["ninja", "-C", b, "-t", "commands", "bin/dyablo"], capture_output=True, text=True).stdout.splitlines() if "-o bin/dyablo" in l or "-o ./bin/dyablo" in l][-1]
link = link.split("&&", 1)[1].rsplit("&&", 1)[0] if link.startswith(":") else link
l = shlex.split(link)
l = [exe + ".o" if x.endswith("dyablo_main.cpp.o") else exe if x == "bin/dyablo" else x for x in l]
subprocess.run(l, cwd=b, check=True)
PY
