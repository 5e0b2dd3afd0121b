#!/usr/bin/env python3
"""mkseed.py FILE...: turns seed descriptions into /verif/seeded/<id>/ (not used by any check).

A description is a python file with SEEDS = [dict(id, property, edits=[(file, old, new)], demo=<C++>,
needs, breaks, cfg='default'|'reuse_slots', flags='', std='c++17')].  With --verify ID... each seed is
applied to a scratch copy (/tmp/sr), the stable tests and the demo are run there."""
import json, os, re, subprocess, sys, difflib, runpy
REPO = "/repo"
SEEDED = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "seeded")
DEMO = """#!/bin/bash
# builds demo.cpp against the library in the current directory (after the build) and runs it
D=$(cd "$(dirname "$0")" && pwd)
EXE=$(mktemp /tmp/xad-demo.XXXXXX)
trap 'rm -f "$EXE"' EXIT
%(cxx)s -std=%(std)s -w %(flags)s -I"$PWD/src" -I"$PWD/_build/%(cfg)s/src" "$D/demo.cpp" "$PWD/src/Tape.cpp" -o "$EXE" -pthread || exit 2
timeout 250 "$EXE"
"""

def diff(edits):
    files = {}
    for f, old, new in edits:
        s = files.get(f) or open(os.path.join(REPO, f)).read()
        if s.count(old) != 1:
            raise SystemExit("edit matches %d times in %s: %r" % (s.count(old), f, old))
        files[f] = s.replace(old, new)
    out = ""
    for f, s in files.items():
        a = open(os.path.join(REPO, f)).read().splitlines(True)
        out += "diff --git a/%s b/%s\n" % (f, f)
        out += "".join(difflib.unified_diff(a, s.splitlines(True), "a/" + f, "b/" + f))
    return out

for fn in sys.argv[1:]:
    for s in runpy.run_path(fn)["SEEDS"]:
        d = os.path.join(SEEDED, s["id"])
        os.makedirs(d, exist_ok=True)
        open(d + "/patch.diff", "w").write(diff(s["edits"]))
        open(d + "/demo.cpp", "w").write(s["demo"].lstrip("\n"))
        open(d + "/demo.sh", "w").write(DEMO % dict(cxx=s.get("cxx", "clang++-18"), std=s.get("std", "c++17"), flags=s.get("flags", "-O0"), cfg=s.get("cfg", "default")))
        os.chmod(d + "/demo.sh", 0o755)
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        subprocess.check_call(["git", "-C", REPO, "apply", "--check", d + "/patch.diff"])
        # the changed lines have to be original ones
        for f in {e[0] for e in s["edits"]}:
            base = [re.match(r"\^", l) is not None for l in subprocess.check_output(["git", "-C", REPO, "blame", "-s", f], text=True).splitlines()]
            a = open(os.path.join(REPO, f)).read().splitlines(True)
            t = "".join(a)
            for g, old, new in s["edits"]:
                if g == f:
                    t = t.replace(old, new)
            for tag, i1, i2, j1, j2 in difflib.SequenceMatcher(None, a, t.splitlines(True), autojunk=False).get_opcodes():
                if tag != "equal":
                    print("  ", f, tag, i1 + 1, i2, "base" if all(base[i1:i2]) else "NOT BASE", "" if i2 > i1 else "(insertion)")
        print(s["id"], "ok")
