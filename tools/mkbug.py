#!/usr/bin/env python3
"""mkbug.py SPEC.py..: creates seeded/<id> from a specification: id, prop, needs, breaks, codes, edits, main."""
import sys, os, subprocess, json
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for f in sys.argv[1:]:
    g = {}
    exec(open(f).read(), g)
    d = f"{root}/seeded/{g['id']}"
    os.makedirs(d, exist_ok=True)
    assert not subprocess.run("git -C /repo status --porcelain", shell=True, capture_output=True).stdout.strip(), "repo dirty"
    try:
        for (path, old, new) in g['edits']:
            p = "/repo/" + path
            s = open(p).read()
            assert s.count(old) == 1, (path, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.run("git -C /repo diff", shell=True, capture_output=True, text=True).stdout
    finally:
        subprocess.run("git -C /repo checkout -q -- .", shell=True)
    open(d + "/patch.diff", "w").write(diff)
    json.dump({"property": g['prop'], "needs": g['needs'], "what_it_breaks": g['breaks']}, open(d + "/meta.json", "w"), indent=1)
    open(d + "/main.rs", "w").write(g['main'].lstrip())
    subprocess.run([root + "/tools/mkdemo.py", g['id'], g['codes']], check=True)
    print("made", g['id'])
