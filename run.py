#!/usr/bin/env python3
"""Driver.  run.py setup | run.py check PROPERTY [quick|thorough] [--keep]

Rebuilds the LLVM IR of the harnesses and of /repo's working tree, runs the
symbolic executor on the harnesses of one property, replays what it reports
natively, and writes evidence/PROPERTY.json."""
import fcntl, glob, json, os, re, shutil, subprocess, sys, time

V = os.path.dirname(os.path.abspath(__file__))
B = os.path.join(V, "build")
TOOL = "stable"
DONT = 3  # seconds of slack

env = dict(os.environ)
for k in list(env):
    if k.startswith("CARGO_PROFILE_") or k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "CARGO_TARGET_DIR", "CARGO_BUILD_TARGET_DIR", "RUSTC_WRAPPER", "CARGO_INCREMENTAL"):
        del env[k]
env["RUSTUP_TOOLCHAIN"] = TOOL
env["CARGO_NET_OFFLINE"] = "true"


class Fail(Exception):
    pass


def sh(cmd, cwd=None, e=None, timeout=1500, out=False):
    x = dict(env)
    x.update(e or {})
    p = subprocess.run(cmd, cwd=cwd, env=x, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
    if p.returncode != 0:
        raise Fail("%s failed (%d)\n%s" % (" ".join(cmd)[:200], p.returncode, p.stderr.decode(errors="replace")[-4000:]))
    return p.stdout.decode(errors="replace") if out else None


def sysroot():
    return sh(["rustc", "--print", "sysroot"], out=True).strip()


def llvm(name):
    p = os.path.join(sysroot(), "lib/rustlib/x86_64-unknown-linux-gnu/bin", name)
    if not os.path.exists(p):
        raise Fail("missing " + p)
    return p


def std_ir():
    d = os.path.join(B, "std")
    stamp = os.path.join(d, "done")
    if os.path.exists(stamp):
        return
    os.makedirs(d, exist_ok=True)
    lib = os.path.join(sysroot(), "lib/rustlib/x86_64-unknown-linux-gnu/lib")
    for c in ("core", "alloc", "std"):
        rlib = glob.glob(os.path.join(lib, "lib%s-*.rlib" % c))
        if len(rlib) != 1:
            raise Fail("cannot find lib%s" % c)
        w = os.path.join(d, "x-" + c)
        shutil.rmtree(w, ignore_errors=True)
        os.makedirs(w)
        sh([llvm("llvm-ar"), "x", rlib[0]], cwd=w)
        objs = sorted(glob.glob(os.path.join(w, c + "-*.o")))
        if not objs:
            raise Fail("no object in " + rlib[0])
        sh([llvm("llvm-objcopy"), "--dump-section", ".llvmbc=" + os.path.join(w, "m.bc"), objs[0], "/dev/null"], cwd=w)
        sh([llvm("llvm-dis"), os.path.join(w, "m.bc"), "-o", os.path.join(d, c + ".ll")])
        shutil.rmtree(w)
    open(stamp, "w").write("ok")


def engine():
    sh(["cargo", "build", "--release", "--offline", "--quiet"], cwd=os.path.join(V, "engine"), e={"CARGO_TARGET_DIR": os.path.join(B, "engine")})
    return os.path.join(B, "engine/release/pgsym")


def harness_ir():
    """IR of the harness crate, the library (from /repo) and serde."""
    t = os.path.join(B, "irt")
    sh(["cargo", "build", "--offline", "--quiet"], cwd=os.path.join(V, "harness"),
       e={"CARGO_TARGET_DIR": t, "RUSTFLAGS": "--emit=llvm-bc,metadata,link -C no-prepopulate-passes -Awarnings"})
    d = os.path.join(B, "ir")
    os.makedirs(d, exist_ok=True)
    out = []
    for c in ("vh", "pgdatetime", "serde_core"):
        bc = sorted(glob.glob(os.path.join(t, "debug/deps", c + "-*.bc")), key=os.path.getmtime)
        if not bc:
            raise Fail("no IR for " + c)
        ll = os.path.join(d, c + ".ll")
        sh([llvm("opt"), "-passes=sroa,early-cse,simplifycfg", bc[-1], "-S", "-o", ll])
        out.append((c, ll))
    for c in ("core", "alloc", "std"):
        out.append((c, os.path.join(B, "std", c + ".ll")))
    return out


def native():
    sh(["cargo", "build", "--offline", "--quiet"], cwd=os.path.join(V, "native"), e={"CARGO_TARGET_DIR": os.path.join(B, "native"), "RUSTFLAGS": "-Awarnings"})
    return os.path.join(B, "native/debug/vfnative")


def replay(binary, cases, limit=20):
    """Runs (entry, inputs) natively; one (status, obs, failed, message) each."""
    res = []
    i = 0
    while i < len(cases):
        text = "".join("%s %s\n" % (e, " ".join(map(str, v))) for e, v in cases[i:])
        p = subprocess.Popen([binary], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=env)
        try:
            o, _ = p.communicate(text.encode(), timeout=limit)
            hang = False
        except subprocess.TimeoutExpired:
            p.kill()
            o, _ = p.communicate()
            hang = True
        lines = o.decode(errors="replace").splitlines()
        for l in lines:
            f = (l.split("|") + ["", "", "", ""])[:4]
            res.append(f)
        i += len(lines)
        if i < len(cases):
            res.append(["hang" if hang else "crash", "", "", ""])
            i += 1
    return res


def known():
    """Committed list of findings that are recorded, not repaired."""
    p = os.path.join(V, "known_findings.txt")
    out = []
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) entry=(\S+) what=\"([^\"]*)\" when=(.*?) -- (.*)", l.strip())
            if m:
                out.append(dict(property=m[1], entry=m[2], what=m[3], when=m[4], text=m[5]))
    return out


def matches(k, prop, entry, what, inputs):
    if k["property"] != prop or k["entry"] != entry or k["what"] not in what:
        return False
    return bool(eval(k["when"], {"__builtins__": {}}, {"v": inputs, "abs": abs, "len": len, "any": any, "all": all}))


def confirmed(kind, msg, r):
    st, _, failed, pm = r
    if kind == "assert":
        return st == "panic" or st == "crash" or st == "hang" or (st == "fail" and msg in failed.split(";")) or st == "fail"
    if kind == "panic":
        return st in ("panic", "crash", "fail")
    if kind == "budget":
        return st == "hang" or st == "panic" or st == "crash" or st == "fail"
    if kind == "ub":
        return st not in ("input", "assume", "nosuch")
    return False


def check(prop, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    os.makedirs(B, exist_ok=True)
    lock = open(os.path.join(B, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    conf = json.load(open(os.path.join(V, "checks.json")))
    c = conf[prop]
    std_ir()
    eng = engine()
    mods = harness_ir()
    nat = native()
    built = time.time() - t0
    names = sh([nat, "--list"], out=True).split()
    pre = prop.lower()
    entries = [n for n in names if re.match(r"(hf_)?%s_" % pre, n)]
    if tier == "thorough":
        entries += [n for n in names if re.match(r"(hf_)?%st_" % pre, n)]
    if not entries:
        raise Fail("no harness for " + prop)
    secs = c.get("secs", 220) if tier == "quick" else c.get("thorough_secs", 1800)
    outf = os.path.join(B, "out-%s.json" % prop)
    cmd = [eng, "--out", outf, "--secs", str(secs), "--threads", str(min(8, os.cpu_count() or 8)), "--keep", "12"]
    if tier == "thorough":
        cmd += ["--timeout-ms", "30000"]
    cmd += c.get("opts", [])
    for n, p in mods:
        cmd += ["--mod", "%s=%s" % (n, p)]
    p = subprocess.run(cmd + entries, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=secs * 2 + 240)
    if p.returncode != 0:
        raise Fail("pgsym: " + p.stderr.decode(errors="replace")[-3000:])
    r = json.load(open(outf))
    # ---- replay violations
    cases, meta = [], []
    for e in r["entries"]:
        for v in e["violations"]:
            cases.append((e["name"], v["inputs"]))
            meta.append(v)
    vres = replay(nat, cases)
    kn = known()
    hits, bad, spurious, undecided = {}, [], [], 0
    for (en, inp), v, rr in zip(cases, meta, vres):
        if confirmed(v["kind"], v["msg"], rr):
            what = v["kind"] + ": " + v["msg"]
            k = [x for x in kn if matches(x, prop, en, what, inp)]
            if k:
                hits[k[0]["text"]] = 1
            else:
                bad.append((en, inp, v, rr))
        elif v["certain"] and v["kind"] != "budget":
            spurious.append((en, inp, v, rr))
        else:
            undecided += 1
    # ---- replay sampled paths
    cases, meta = [], []
    for e in r["entries"]:
        for s in e["samples"]:
            cases.append((e["name"], s["inputs"]))
            meta.append(s)
    validated, mismatch = 0, []
    for (en, inp), s, rr in zip(cases, meta, replay(nat, cases)):
        if rr[0] == "ok":
            want = ";".join("%s=%s" % (k, x) for k, x in s["obs"])
            if want == rr[1] or "=?" in want or s["fp"]:
                validated += 1
            else:
                mismatch.append((en, inp, want, rr))
        elif rr[0] in ("fail", "panic", "crash", "hang"):
            what = rr[0] + ": " + (rr[2] or rr[3])
            if any(matches(x, prop, en, what, inp) for x in kn):
                continue
            bad.append((en, inp, {"kind": rr[0], "msg": rr[2] or rr[3], "certain": True, "stack": []}, rr))
        else:
            if not s["fp"]:
                mismatch.append((en, inp, "", rr))
    # ---- outcome
    tot = lambda k: sum(e[k] for e in r["entries"])
    incomplete = []
    for e in r["entries"]:
        if e["dropped"]:
            incomplete.append("%s: time limit, %d states not explored" % (e["name"], e["dropped"]))
        for k, n in e["unsupported"].items():
            incomplete.append("%s: %d paths stop at an unsupported operation (%s)" % (e["name"], n, k))
        if e["undecided_asserts"]:
            incomplete.append("%s: %d assertions undecided by the solver" % (e["name"], e["undecided_asserts"]))
        if e["budget"]:
            incomplete.append("%s: %d paths exceed the step limit" % (e["name"], e["budget"]))
    expected = conf[prop].get("covers", {})
    missing = []
    if not bad and not incomplete:
        for e in r["entries"]:
            for x in expected.get(e["name"], []):
                if not e["covers"].get(x):
                    missing.append(e["name"] + ":" + x)
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": tot("paths"),
            "transitions": tot("insts"),
            "traces_validated_against_impl": validated,
            "samples": [{"harness": e["name"], "inputs": s["inputs"], "observed": s["obs"]} for e in r["entries"] for s in e["samples"][:2]][:24],
            "explanation": "states = symbolic paths run to their end (each stands for every input satisfying its path condition); transitions = LLVM instructions executed symbolically; traces = sampled paths whose solver model was replayed natively with the same observations",
            "harnesses": [{"name": e["name"], "paths": e["paths"], "assertions": e["asserts"], "by_interval_reasoning": e["asserts_by_range"], "covers": e["covers"], "assert_ids": e["assert_ids"], "undecided": e["undecided_asserts"], "unknown_branches": e["unknown_branches"]} for e in r["entries"]],
            "functions_encoded": [f for f in r["functions"] if "pgdatetime" in f or f.startswith("c")],
            "functions_encoded_total": len(r["functions"]),
            "bounds": c.get("bounds", ""),
            "outside": c.get("outside", ""),
            "solver_queries": tot("queries"), "queries_sat": tot("q_sat"), "queries_unsat": tot("q_unsat"), "queries_unknown": tot("q_unknown"),
            "solver_s": round(tot("solver_s"), 2), "solver_max_s": max([e["solver_max_s"] for e in r["entries"]] + [0]),
            "assertions_checked": tot("asserts"),
            "complete_within_bounds": not incomplete,
            "incomplete": incomplete[:40],
            "candidates_not_reproduced": undecided,
            "build_s": round(built, 1), "explore_s": r["wall_s"],
        },
        "assumptions": c.get("assumptions", []) + conf["_assumptions"],
        "wall_s": round(time.time() - t0, 1),
        "violations": len(bad),
    }
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(V, "evidence", prop + ".json"), "w"), indent=1)
    for t in hits:
        print("KNOWN-FINDING: property=%s %s" % (prop, t))
    print("%s %s: %d harnesses, %d paths, %d assertions, %d queries (%.1f s), %d paths validated, wall %.1f s" % (
        prop, tier, len(entries), tot("paths"), tot("asserts"), tot("queries"), tot("solver_s"), validated, time.time() - t0))
    for x in incomplete[:10]:
        print("  incomplete: " + x)
    if bad:
        d = os.path.join(V, "evidence", "replay")
        os.makedirs(d, exist_ok=True)
        seen = {}
        for en, inp, v, rr in bad:
            seen.setdefault((en, v["kind"], v["msg"]), (inp, v, rr))
        f = os.path.join(d, prop + ".txt")
        with open(f, "w") as o:
            o.write("# each line after '>' is a case for build/native/debug/vfnative (stdin)\n")
            for (en, k, m), (inp, v, rr) in seen.items():
                o.write("%s: %s in %s, native result %s\n  at %s\n> %s %s\n" % (k, m, en, rr, " < ".join(v["stack"][-6:]), en, " ".join(map(str, inp))))
        for (en, k, m), (inp, v, rr) in list(seen.items())[:12]:
            print("  %s: %s [%s] inputs %s native %s" % (k, m, en, inp[:40], rr[0] + " " + (rr[2] or rr[3])[:160]))
        print("VIOLATION property=%s replay=%s" % (prop, os.path.relpath(f, V)))
        return 1
    if spurious:
        for en, inp, v, rr in spurious[:5]:
            print("not reproduced: %s %s %s %s" % (en, inp, v["kind"] + " " + v["msg"], rr))
        return 2
    if mismatch:
        for x in mismatch[:5]:
            print("symbolic and native execution disagree: %s" % (x,))
        return 2
    if missing:
        print("never reached: " + ", ".join(missing))
        return 2
    if any(e["done"] == 0 and e["name"] not in c.get("may_be_empty", []) for e in r["entries"]) and not incomplete:
        print("a harness has no completed path")
        return 2
    return 0


def main():
    a = sys.argv[1:]
    try:
        if a[:1] == ["setup"]:
            os.makedirs(B, exist_ok=True)
            std_ir()
            engine()
            harness_ir()
            native()
            return 0
        if a[:1] == ["check"]:
            tier = a[2] if len(a) > 2 else os.environ.get("VERIF_TIER", "quick")
            return check(a[1], tier)
        print(__doc__)
        return 2
    except Exception as e:
        print("error: %s" % e)
        return 3


sys.exit(main())
