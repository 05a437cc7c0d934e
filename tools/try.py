#!/usr/bin/env python3
"""development helper: try.py MODULE[,MODULE..] [verify-module...] : merge + verus, print the errors"""
import sys, os, json, subprocess, glob
sys.path.insert(0, "/verif/tools")
import vf
V = "/verif"
mods = sys.argv[1].split(",")
extra = sys.argv[2:]
d = json.loads(subprocess.run([V + "/target/extract/debug/extract", os.environ.get("SRC", "/repo/src"), V + "/overlay/rules.txt"], capture_output=True, text=True, check=True).stdout)
o = vf.Overlay()
for f in sorted(glob.glob(V + "/overlay/*.ov")):
    o.load(f)
allm = set()
for m in mods:
    parts = m.split("::")
    for i in range(len(parts)):
        allm.add("::".join(parts[:i + 1]))
m = vf.build(o, d["items"], sorted(glob.glob(V + "/overlay/model/*.rs")), open(V + "/overlay/header.rs").read(), only_modules=allm)
print("unknown", m.unknown, "\nmissing", m.missing, "\nlost", m.lost, "\npinned", m.pinned, "\nchanged", m.changed)
out = os.environ.get("OUT", "/tmp/try.rs")
open(out, "w").write("\n".join(m.text) + "\n")
os.execvp("verus", ["verus", out, "--multiple-errors", "5", "--triggers-mode", "silent"] + extra)
