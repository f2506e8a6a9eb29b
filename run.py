#!/usr/bin/env python3
"""run.py <property> [--case ID] : build the harness of one property against
/repo's working tree, explore its bounded space exhaustively, confirm every
violation by replaying its case alone, write evidence/<property>.json."""
import sys, os, json, hashlib, subprocess, time, fnmatch, glob, shutil, tempfile, concurrent.futures as cf

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("MC_REPO", "/repo")
BUILD = os.environ.get("MC_BUILD", os.path.join(VERIF, "build"))
sys.path.insert(0, VERIF)
from checks import CHECKS, CONFIGS

NCPU = os.cpu_count() or 8

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def fhash(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode()); h.update(b"\0")
    return h.hexdigest()[:24]

def read(p):
    with open(p, "rb") as f: return f.read()

def build_lib(config):
    """compile every library source of the working tree; objects cached by content."""
    cc, flags = CONFIGS[config]
    src = sorted(glob.glob(REPO + "/src/*.c"))
    src = [s for s in src if os.path.basename(s) != "waveletarima.c"]  # not part of the library target
    hdr = sorted(glob.glob(REPO + "/src/*.h") + glob.glob(REPO + "/header/*.h"))
    hh = fhash(*[read(h) for h in hdr], *[os.path.basename(h) for h in hdr])
    os.makedirs(BUILD + "/obj", exist_ok=True)
    objs, todo = [], []
    for s in src:
        o = f"{BUILD}/obj/{config}-{os.path.basename(s)[:-2]}-{fhash(cc, flags, hh, read(s))}.o"
        objs.append(o)
        if not os.path.exists(o): todo.append((s, o))
    def comp(so):
        s, o = so
        t = f"{o}.{os.getpid()}.tmp"
        r = sh([cc, *flags, "-w", "-c", s, "-o", t, "-I", REPO + "/header"])
        if r.returncode: return f"{s}:\n{r.stdout}"
        os.replace(t, o); return None
    with cf.ThreadPoolExecutor(NCPU) as ex:
        errs = [e for e in ex.map(comp, todo) if e]
    if errs:
        print("library does not compile:\n" + "\n".join(errs)); sys.exit(3)
    return objs

def build_harness(spec, config):
    objs = build_lib(config)
    cc, flags = CONFIGS[config]
    srcs = [os.path.join(VERIF, "harness", s) for s in spec["src"]] + [os.path.join(VERIF, "lib", s) for s in ["mc.c"] + spec.get("lib", [])]
    deps = glob.glob(VERIF + "/lib/*") + glob.glob(VERIF + "/harness/*.h")
    extra, link = spec.get("cflags", []), spec.get("ldflags", [])
    key = fhash(cc, flags, extra, link, *[read(s) for s in srcs], *[read(d) for d in sorted(deps)], *objs,
                *[read(h) for h in sorted(glob.glob(REPO + "/src/*.h"))])
    exe = f"{BUILD}/bin/{spec['src'][0][:-2]}-{config}-{key}"
    if os.path.exists(exe): return exe
    os.makedirs(BUILD + "/bin", exist_ok=True)
    hflags = [f for f in flags if f not in spec.get("drop_harness_flags", [])]
    hobjs = []
    def comp(s):
        o = f"{exe}.{os.path.basename(s)}.{os.getpid()}.o"
        r = sh([cc, *hflags, *extra, "-Wall", "-Wno-unused", "-Wno-unknown-warning-option", "-Wno-format-truncation", "-Wno-misleading-indentation",
                "-c", s, "-o", o, "-I", VERIF + "/lib", "-I", REPO + "/src"])
        return o, r
    with cf.ThreadPoolExecutor(NCPU) as ex:
        for o, r in ex.map(comp, srcs):
            if r.returncode: print("harness does not compile:\n" + r.stdout); sys.exit(3)
            if r.stdout.strip() and os.environ.get("MC_WARN"): print(r.stdout)
            hobjs.append(o)
    t = f"{exe}.{os.getpid()}.tmp"
    r = sh([cc, *hflags, *hobjs, *objs, *link, "-lm", "-lpthread", "-o", t])
    for o in hobjs: os.remove(o)
    if r.returncode: print("harness does not link:\n" + r.stdout); sys.exit(3)
    os.replace(t, exe)
    return exe

ENV = dict(os.environ,
    ASAN_OPTIONS="exitcode=99:detect_leaks=0:malloc_context_size=2:allocator_may_return_null=1:detect_stack_use_after_return=0:abort_on_error=0:max_allocation_size_mb=4000",
    UBSAN_OPTIONS="halt_on_error=1:exitcode=99:print_stacktrace=1",
    MSAN_OPTIONS="exitcode=99", LC_ALL="C")

def explore(exe, spec, thorough, case=None, limit_mult=1.0, known=()):
    d = tempfile.mkdtemp(prefix="mc.")
    with open(d + "/known", "w") as f:
        for k in known: f.write("%s\t%s\n" % (k["case"].replace("[", "\\["), k["tag"]))
    j = d + "/out.json"
    od = d + "/o"; os.mkdir(od)
    cmd = [exe, "--out", od, "--json", j, "--shards", str(spec.get("shards", NCPU)), "--limit-mult", str(limit_mult), "--known", d + "/known"]
    if thorough: cmd.append("--thorough")
    if case is not None: cmd += ["--case", case]
    env = dict(ENV); env.update(spec.get("env", {}))
    r = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    try:
        res = json.load(open(j))
    except Exception as e:
        print("harness failed:", r.returncode, r.stdout.decode(errors="replace")[-2000:]); shutil.rmtree(d); sys.exit(3)
    shutil.rmtree(d)
    return res

def load_known(prop):
    """lines:  finding: property=C07 case=<glob> tag=<glob> :: text"""
    out = []
    p = VERIF + "/known_findings.txt"
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("finding: property=%s " % prop):
                head, text = l.split(" :: ", 1)
                case = head.split(" case=", 1)[1].rsplit(" tag=", 1)[0]; tag = head.rsplit(" tag=", 1)[1]
                out.append(dict(case=case, tag=tag, text=text))
    return out

def main():
    prop = sys.argv[1]
    spec = CHECKS[prop]
    thorough = os.environ.get("VERIF_TIER", "quick") == "thorough" or "--thorough" in sys.argv
    case = sys.argv[sys.argv.index("--case") + 1] if "--case" in sys.argv else None
    t0 = time.time()
    parts = spec["parts"] if "parts" in spec else [spec]
    known = load_known(prop)
    hit, viol, merged = {}, [], dict(cases=0, ops=0, states=0, samples=[], notes=[], counters={}, truncated=0)
    for part in parts:
        config = part.get("config", "asan")
        exe = build_harness(part, config)
        if "--build-only" in sys.argv: continue
        if "--list" in sys.argv:
            subprocess.run([exe, "--list"] + (["--thorough"] if thorough else []), env=ENV); continue
        res = explore(exe, part, thorough, case, known=known)
        for k in res["known"]: hit.setdefault(k["k"], k)
        for k in ("cases", "ops", "states"): merged[k] += res[k]
        merged["truncated"] |= res["truncated"]
        merged["samples"] += res["samples"][:8]; merged["notes"] += res["notes"]
        for k, v in res["counters"].items(): merged["counters"][k] = v
        # one representative per (case,tag); confirm by replaying the case alone
        seen = set()
        confirmed = 0; flaky = []
        for v in res["violations"]:
            key = (v["case"], v["tag"])
            if key in seen: continue
            seen.add(key)
            if v["tag"] == "harness":
                print("harness process died outside a case:", v["msg"]); sys.exit(3)
            v["exe_part"] = parts.index(part)
            if case is None and confirmed < 12:
                r2 = explore(exe, part, thorough, v["case"], limit_mult=4.0 if v["tag"] == "hang" else 2.0)
                tags = [w["tag"] for w in r2["violations"]]
                if v["tag"] not in tags:
                    if tags: v["tag"] = tags[0]; v["msg"] = r2["violations"][0]["msg"]
                    else:
                        flaky.append(v); continue
                confirmed += 1
            viol.append(v)
        if flaky:
            for v in flaky[:5]: print("not reproduced alone (ignored unless others confirm):", v["case"], v["tag"], v["msg"][:200])
            merged["notes"].append("%d case(s) not reproduced when replayed alone" % len(flaky))
            merged["counters"]["not_reproduced"] = merged["counters"].get("not_reproduced", 0) + len(flaky)
            if part.get("flaky_is_violation") or len(flaky) >= 3 and not any(v["tag"] == "hang" for v in flaky): viol += flaky
    if "--list" in sys.argv or "--build-only" in sys.argv: return 0
    new = viol
    for i, v in hit.items():
        print("KNOWN-FINDING: property=%s %s (case %s)" % (prop, known[i]["text"], v["case"]))
    wall = time.time() - t0
    if case is None:
        cov = dict(states=merged["states"], transitions=merged["ops"], traces_validated_against_impl=merged["cases"],
                   evaluations=merged["cases"], distinct_nontrivial=merged["states"],
                   rule=spec["rule"], samples=merged["samples"][:12] or ["(none)"], exhaustive=not merged["truncated"], measured=merged["counters"])
        if merged["notes"]: cov["notes"] = merged["notes"][:200]
        ev = dict(property=prop, tier="thorough" if thorough else "quick", seed=int(os.environ.get("VERIF_SEED", "1")),
                  level=spec.get("level", "model_checking"), coverage=cov,
                  assumptions=spec.get("assumptions", []), wall_s=round(wall, 3), violations=len(new))
        os.makedirs(VERIF + "/evidence", exist_ok=True)
        with open(f"{VERIF}/evidence/{prop}.json", "w") as f: json.dump(ev, f, indent=1)
    print("%s: %d cases, %d operations, %d distinct outcomes, %d violation(s), %d known, %.1f s%s" %
          (prop, merged["cases"], merged["ops"], merged["states"], len(new), len(hit), wall, " TRUNCATED" if merged["truncated"] else ""))
    if case is not None and merged["cases"] == 0:
        print("no such case"); return 2
    if new:
        os.makedirs(VERIF + "/replays", exist_ok=True)
        for n, v in enumerate(new[:20]):
            path = f"{VERIF}/replays/{prop}-{fhash(v['case'], v['tag'])[:10]}.txt"
            with open(path, "w") as f:
                f.write("property %s\ncase %s\nassertion %s\n%s\nreplay: cd %s && %spython3 run.py %s --case '%s'\n" %
                        (prop, v["case"], v["tag"], v["msg"], VERIF, "VERIF_TIER=thorough " if thorough else "", prop, v["case"]))
            print("  [%s] %s: %s" % (v["case"], v["tag"], v["msg"][:400]))
            if n < 10: print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if merged["cases"] == 0:
        print("nothing explored"); return 3
    if merged["truncated"]:
        print("exploration was cut short"); return 3
    return 0

sys.exit(main())
