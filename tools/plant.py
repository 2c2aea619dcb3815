#!/usr/bin/env python3
"""plant.py <file with bugs>: writes /verif/seeded/<id>/ from replacements in /repo's HEAD and the body of a demonstration."""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/plantwork"

def plant(id, prop, edits, needs, breaks, main):
    shutil.rmtree(W, ignore_errors=True)
    subprocess.run(["git", "clone", "-q", "/repo", W], check=True)
    for f, old, new in edits:
        p = os.path.join(W, f); s = open(p).read()
        assert s.count(old) == 1, (id, f, s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    d = os.path.join(V, "seeded", id); os.makedirs(d, exist_ok=True)
    diff = subprocess.run(["git", "-C", W, "diff"], capture_output=True, text=True, check=True).stdout
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    for f in ("demo.sh", "kit.rs"): shutil.copy(os.path.join(V, "tools/demo", f), d)
    open(os.path.join(d, "main.rs"), "w").write("mod kit;\nuse kit::*;\n" + main.lstrip("\n"))
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(os.path.join(d, "meta.json"), "w"), indent=1)
    shutil.rmtree(W)

if __name__ == "__main__":
    exec(open(sys.argv[1]).read(), dict(plant=plant))
