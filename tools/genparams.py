#!/usr/bin/env python3
"""Regenerate units/params.txt (the parameter names the contracts are written against) from the current /repo."""
import glob, json, os, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
U = os.environ.get("U", os.path.join(V, "units"))
vx, exp = sys.argv[1], sys.argv[2]  # the extractor, the macro-expanded crate
p = os.path.join(U, "params.txt")
if os.path.exists(p):
    os.remove(p)
out = {}
with tempfile.TemporaryDirectory() as d:
    for u in json.load(open(os.path.join(V, "checks.json"))).values():
        for n in u["units"]:
            if os.path.exists(os.path.join(d, n + ".json")) or not os.path.exists(os.path.join(U, n + ".vx")):
                continue
            subprocess.run([vx, os.path.join(U, n + ".vx"), "/repo", os.path.join(d, n + ".rs"), os.path.join(d, n + ".json"), "--expanded=" + exp], check=True)
            rep = json.load(open(os.path.join(d, n + ".json")))
            out.update(rep["structs"])
            for f in rep["functions"]:
                if f["params"]:
                    out[f["id"]] = " ".join(f["params"])
open(p, "w").write("".join(f"{k}\t{v}\n" for k, v in sorted(out.items())))
