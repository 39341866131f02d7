#!/usr/bin/env python3
"""seedgen.py DEF...: turns a bug definition (python file with ID, PROPERTY, NEEDS, BREAKS, EDITS, DEMO[, FLAGS]) into
seeded/<ID>/ and verifies patch and demonstration in a scratch copy of /repo's sources."""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SH = """#!/bin/bash
# run with cwd = the repository: exit 0 if it behaves, 1 otherwise
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 2
trap 'rm -r "$T"' EXIT
%s
"""
CXX = """g++ -std=c++11 -O2 -w %s -I include -DPANDA_RESAMPLER_HEADER_ONLY "$D/demo.cc" -o "$T/demo" -lpthread || exit 2
timeout 120 "$T/demo"
"""


def run(cmd, cwd):
    return subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")


for f in sys.argv[1:]:
    d = {}
    exec(open(f).read(), d)
    out = os.path.join(V, "seeded", d["ID"])
    t = tempfile.mkdtemp(prefix="seed-")
    try:
        w = os.path.join(t, "w")
        run(["git", "clone", "-q", "/repo", w], "/")
        for path, old, new in d["EDITS"]:
            p = os.path.join(w, path)
            b = open(p, "rb").read()
            crlf = b"\r\n" in b
            o, n = old.encode(), new.encode()
            if crlf:
                o, n = o.replace(b"\n", b"\r\n"), n.replace(b"\n", b"\r\n")
            if b.count(o) != 1:
                sys.exit("%s: %d matches in %s of %r" % (d["ID"], b.count(o), path, old))
            open(p, "wb").write(b.replace(o, n))
        diff = subprocess.run(["git", "diff"], cwd=w, stdout=subprocess.PIPE).stdout
        os.makedirs(out, exist_ok=True)
        open(os.path.join(out, "patch.diff"), "wb").write(diff)
        body = d.get("SHELL") or CXX % d.get("FLAGS", "")
        open(os.path.join(out, "demo.sh"), "w").write(SH % body)
        os.chmod(os.path.join(out, "demo.sh"), 0o755)
        if d.get("DEMO"):
            open(os.path.join(out, "demo.cc"), "w").write(d["DEMO"].lstrip("\n"))
        json.dump({"property": d["PROPERTY"], "needs": d["NEEDS"], "what_it_breaks": d["BREAKS"]}, open(os.path.join(out, "meta.json"), "w"), indent=1)
        bad = run([os.path.join(out, "demo.sh")], w)
        run(["git", "checkout", "-q", "--", "."], w)
        good = run([os.path.join(out, "demo.sh")], w)
        a = run(["git", "apply", "--check", os.path.join(out, "patch.diff")], w)
        ok = good.returncode == 0 and bad.returncode not in (0, 2) and a.returncode == 0
        print("%s %s (unchanged %d, patched %d, applies %d) %s" % ("ok  " if ok else "FAIL", d["ID"], good.returncode, bad.returncode, a.returncode, (good.stdout + bad.stdout + a.stdout)[-400:].strip().replace("\n", " | ")))
    finally:
        shutil.rmtree(t, ignore_errors=True)
