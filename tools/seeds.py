#!/usr/bin/env python3
"""Source of the planted bugs: tools/seeds.py [id-prefix ...] writes seeded/<id>/ against /repo's HEAD."""
import json, os, subprocess, sys, tempfile, shutil
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
SEEDS = []
DEMO_SH = '''#!/bin/bash
# exit 0 when the behaviour is right, nonzero when it is broken
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
clang++-18 -std=c++20 -O1 -DNDEBUG -w -DRAPIDJSON_HAS_CXX11_RVALUE_REFS -I. -Iinc -isystem /usr/include/eigen3 FLAGS "$d/demo.cpp" EXTRA -o "$t/demo" LIBS || exit 2
timeout 250 "$t/demo"
'''
def seed(id, prop, needs, breaks, edits, demo, libs="-ltbb -lnlopt", flags="", extra=""):
    SEEDS.append(dict(id=id, prop=prop, needs=needs, breaks=breaks, edits=edits, demo=demo, libs=libs, flags=flags, extra=extra))

def main(sel):
    for f in sorted(os.listdir(os.path.join(HERE, "seeds.d"))):
        if f.endswith(".py"):
            exec(compile(open(os.path.join(HERE, "seeds.d", f)).read(), f, "exec"), dict(seed=seed))
    for s in SEEDS:
        if sel and not any(s["id"].startswith(x) for x in sel):
            continue
        wt = tempfile.mkdtemp(prefix="wt_seed")
        subprocess.check_call(["git", "-C", "/repo", "worktree", "add", "-q", "--detach", "--force", wt, "HEAD"])
        try:
            for e in s["edits"]:
                path, old, new = e[:3]
                after = e[3] if len(e) > 3 else None
                p = os.path.join(wt, path)
                t = open(p, newline="").read()
                start = t.index(after) if after else 0
                if "\r\n" in t:
                    old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
                i = t.index(old, start)
                t = t[:i] + new + t[i + len(old):]
                open(p, "w", newline="").write(t)
            diff = subprocess.check_output(["git", "-C", wt, "diff"])
        finally:
            subprocess.call(["git", "-C", "/repo", "worktree", "remove", "--force", wt])
        d = os.path.join(VERIF, "seeded", s["id"])
        os.makedirs(d, exist_ok=True)
        open(os.path.join(d, "patch.diff"), "wb").write(diff)
        open(os.path.join(d, "demo.sh"), "w").write(DEMO_SH.replace("LIBS", s["libs"]).replace("FLAGS", s["flags"]).replace("EXTRA", s["extra"]))
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        open(os.path.join(d, "demo.cpp"), "w").write(s["demo"].lstrip("\n"))
        json.dump(dict(property=s["prop"], needs=s["needs"], what_it_breaks=s["breaks"]), open(os.path.join(d, "meta.json"), "w"), indent=1)
        print(s["id"])
main(sys.argv[1:])
