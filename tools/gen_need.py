#!/usr/bin/env python3
"""Writes harness/src/props/need.rs: the events every full run of a property must have observed.
They depend on the generated inputs and the oracle only (labels that tell what the code did are left out).
Usage: gen_need.py <mon binary>   (run on the unchanged tree)"""
import json, os, subprocess, sys, tempfile
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
skip = ("unjudged", "decided", "convex test took", "few calls", "many calls", "normalised by", "reported longest", "positive verdict", "negative verdict")
out = ["//! generated by tools/gen_need.py\n", "pub fn need(id: &str) -> &'static [&'static str] {\n    match id {\n"]
for k in range(1, 33):
    p = "C%02d" % k
    f = tempfile.mktemp()
    subprocess.run([sys.argv[1], "run", p, "--seed", "5", "--cases", "20000", "--out", f], check=True)
    d = json.load(open(f)); os.unlink(f)
    n = [e for e, c in sorted(d["events"].items()) if c >= 100 and not e.startswith(skip)]
    out.append('        "%s" => &[%s],\n' % (p, ", ".join(json.dumps(e) for e in n)))
out.append("        _ => &[],\n    }\n}\n")
open(os.path.join(here, "harness/src/props/need.rs"), "w").write("".join(out))
