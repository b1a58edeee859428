#!/usr/bin/env python3
"""writes MANIFEST.json from properties.jsonl and the harnesses present"""
import json, glob, os
na = {
 "P33": "C++ archive code over libarchive and the file system (FFI and I/O): cannot be encoded",
 "P34": "C++ command line driver over iostreams, std::list and the file system: cannot be encoded",
}
checks, nas = [], []
for l in open("properties.jsonl"):
    p = json.loads(l)
    i = p["id"]
    if glob.glob("harness/%s_*.c" % i) and i not in na:
        checks.append({"property": i, "quick_cmd": "python3 check.py %s --tier quick" % i,
            "thorough_cmd": "python3 check.py %s --tier thorough" % i,
            "technique": "symbolic execution of the real code (LLVM IR) with Z3 deciding every branch and assertion; counterexamples replayed natively",
            "level": "model_checking",
            "level_note": "exhaustive over all paths and values within the bounds stated in the harness and evidence; nothing is claimed outside them"})
    else:
        nas.append({"property": i, "reason": na.get(i, "no check built yet")})
json.dump({"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks, "not_applicable": nas,
           "notes": "see DESIGN.md; counterexamples: replays/*.json, re-run with check.py --replay"}, open("MANIFEST.json", "w"), indent=1)
