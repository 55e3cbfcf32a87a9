#!/usr/bin/env python3
"""refactor.py ID...|all: apply the behaviour-preserving edits of tools/refactors.py one by one in a
scratch copy; the checks named there must stay quiet (rc 0)"""
import os, shutil, subprocess, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import refactors
V = "/verif"

def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)

ids = [x for x in refactors.REF if sys.argv[1:] == ["all"] or any(x == a or x.startswith(a + "-") for a in sys.argv[1:])]
base = tempfile.mkdtemp(prefix="ref.", dir="/tmp")
R = base + "/repo"
sh("cp -a /repo %s" % R)
try:
    for i in ids:
        props, edits = refactors.REF[i]
        sh("git checkout -q -- .", cwd=R)
        bad = False
        for f, old, new in edits:
            p = os.path.join(R, f)
            t = open(p).read()
            if t.count(old) != 1:
                print(i, "EDIT does not apply:", f, t.count(old), old[:50]); bad = True; break
            open(p, "w").write(t.replace(old, new))
        if bad:
            continue
        D = base + "/dump"
        shutil.rmtree(D, ignore_errors=True)
        os.makedirs(D)
        e = sh("%s/bin/extract %s" % (V, D), env=dict(os.environ, REPO=R))
        if e.returncode:
            print(i, "extract failed", e.stdout[-800:]); continue
        out = ""
        from concurrent.futures import ThreadPoolExecutor
        with ThreadPoolExecutor(7) as ex:
            cs = list(ex.map(lambda p: sh("%s/bin/check %s" % (V, p), env=dict(os.environ, MIRX_DUMP=D)), props))
        for p, c in zip(props, cs):
            if c.returncode == 0 and not any(x.startswith("undecided") for x in c.stdout.split("\n")):
                continue
            l = [x for x in c.stdout.split("\n") if x.startswith(("violated", "undecided"))]
            out += " %s:%s" % (p, "quiet" if c.returncode == 0 else "ALARM")
            out += "".join("\n    " + x[:330] for x in l[:3])
        print(i + ":" + out, flush=True)
finally:
    shutil.rmtree(base)
