#!/usr/bin/env python3
"""Planted bugs.  seed.py mk FILE.py   : FILE defines id, prop, edits=[(file,old,new)], needs, breaks, demo (C source)
                  seed.py run [ids..]  : in a scratch copy: build, stable tests, demo on both trees, the property's check."""
import sys, os, subprocess, shutil, json, re, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
DEMO = '''#!/bin/bash
# exit 0: property holds; nonzero: broken.  cwd = /repo
h="$(cd "$(dirname "$0")" && pwd)"; t="$(mktemp -d)"; trap 'rm -rf "$t"' EXIT
gcc -O1 -g -w %s -I src -I header "$h/demo.c" $(ls src/*.c | grep -v waveletarima) -lm -lpthread -o "$t/demo" || exit 3
timeout 120 "$t/demo"
'''
def mk(fn):
    g = {}; exec(open(fn).read(), g); items = g.get("seeds") or [g]
    for s in items:
        d = tempfile.mkdtemp(prefix="seedmk."); sh(f"cp -a /repo/. {d}/")
        for e in s["edits"]:
            f, old, new = e[:3]; nth = e[3] if len(e) > 3 else None
            p = f"{d}/{f}"; t = open(p, newline="").read()
            crlf = "\r\n" in t
            if crlf: old = old.replace("\n", "\r\n"); new = new.replace("\n", "\r\n")
            if nth is not None:
                k = -1
                for _ in range(nth + 1): k = t.index(old, k + 1)
                open(p, "w", newline="").write(t[:k] + new + t[k + len(old):]); continue
            if t.count(old) != 1: print(s["id"], f, "matches:", t.count(old)); shutil.rmtree(d); sys.exit(1)
            open(p, "w", newline="").write(t.replace(old, new))
        o = f"{V}/seeded/{s['id']}"; os.makedirs(o, exist_ok=True)
        r = subprocess.run(["git", "-C", d, "diff"], stdout=subprocess.PIPE); open(o + "/patch.diff", "wb").write(r.stdout)
        open(o + "/demo.c", "w").write(s["demo"]); open(o + "/demo.sh", "w").write(DEMO % s.get("cflags", "")); os.chmod(o + "/demo.sh", 0o755)
        json.dump(dict(property=s["prop"], needs=s["needs"], what_it_breaks=s["breaks"]), open(o + "/meta.json", "w"), indent=1)
        shutil.rmtree(d)
def run(ids, tests=True, props=None):
    ids = ids or sorted(os.listdir(V + "/seeded"))
    d = "/tmp/seedrun.%d" % os.getpid(); os.makedirs(d); sh(f"cp -a /repo/. {d}/; rm -rf {d}/_build")
    base = json.load(open("/opt/vp/BASELINE.json")); stable = set(base.get("stable") or base.get("passed") or [])
    bs = open("/opt/vp/build.sh").read().replace("/repo", d); ts = open("/opt/vp/test.sh").read().replace("/repo", d).replace("/opt/vp/build.sh", d + "/.b.sh")
    open(d + "/.b.sh", "w").write(bs); open(d + "/.t.sh", "w").write(ts)
    for i in ids:
        s = f"{V}/seeded/{i}"; m = json.load(open(s + "/meta.json")); out = [i, m["property"]]
        a = sh(f"bash {s}/demo.sh", cwd=d); out.append("clean-demo=%d" % a.returncode)
        r = sh(f"git apply {s}/patch.diff", cwd=d)
        if r.returncode: print(*out, "PATCH DOES NOT APPLY", r.stdout); continue
        if tests:
            t = sh(f"bash {d}/.t.sh {d}/.o.json", cwd=d)
            o = json.load(open(d + "/.o.json")); out.append("tests=%d/%d" % (len(o["passed"]), len(o["passed"]) + len(o["failed"])))
        b = sh(f"bash {s}/demo.sh", cwd=d); out.append("bug-demo=%d" % b.returncode)
        for p in [] if "--demo" in sys.argv else props or [m["property"]]:
            c = sh(f"python3 {V}/run.py {p}", env=dict(os.environ, MC_REPO=d), cwd=V)
            out.append("%s=%d%s" % (p, c.returncode, " CAUGHT" if c.returncode == 1 and "VIOLATION property=%s " % p in c.stdout else " missed"))
            if "-v" in sys.argv: print(c.stdout[-1500:])
        print(*out, flush=True)
        sh(f"git apply -R {s}/patch.diff", cwd=d)
    shutil.rmtree(d)
a = [x for x in sys.argv[2:] if not x.startswith("-")]
if sys.argv[1] == "mk": mk(a[0])
else: run(a, "--notests" not in sys.argv)
