#!/usr/bin/env python3
"""dump.py KEY... : canonical lines of extracted items, to start an overlay section"""
import json, subprocess, sys, re
V="/verif"
d=json.loads(subprocess.run([V+"/target/extract/debug/extract","/repo/src",V+"/overlay/rules.txt"],capture_output=True,text=True).stdout)
pat=[re.compile(p) for p in sys.argv[1:]]
for it in d["items"]:
    if it["kind"]=="use": continue
    if any(p.fullmatch(it["key"]) for p in pat):
        print("@@ item "+it["key"])
        for l,n in zip(it["lines"],it["depth"]): print("    "*n+l)
        print()
