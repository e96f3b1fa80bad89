#!/usr/bin/env python3
"""Run the check of one property: build its units from /repo's working tree, run them,
judge what their monitors report, write evidence/<id>.json.

usage: check.py PROPERTY [--tier quick|thorough] [--keep] [--only-unit U] [--replay FILE]
exit 0: held; 1: VIOLATION printed; 2: the check itself could not run.
"""
import sys, os, re, json, time, subprocess, tempfile, shutil, threading, hashlib, argparse, fnmatch
from concurrent.futures import ThreadPoolExecutor, as_completed

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
sys.path.insert(0, os.path.join(VERIF, "tools"))
from plan import PLAN, VARIANTS  # noqa: E402

HARNESS = os.path.join(VERIF, "harness")
T0 = time.time()
STOP = [820.0]      # seconds after T0 at which everything is stopped; brought forward once there is a violation to report

SAN_ENV = {
    "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=99:detect_stack_use_after_return=1:"
                    "strict_init_order=1:check_initialization_order=1:allocator_may_return_null=1:"
                    "detect_invalid_pointer_pairs=0:quarantine_size_mb=64:malloc_context_size=8",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=0",
    "TSAN_OPTIONS": "halt_on_error=1:exitcode=98:second_deadlock_stack=1:history_size=4:"
                    "report_signal_unsafe=0:ignore_noninstrumented_modules=0",
    "MSAN_OPTIONS": "exitcode=97",
}


def compile_unit(bdir, unit, variant):
    # "u_x#2" is the second part of u_x.cpp (compiled with VF_PART=2)
    t1 = time.time()
    try:
        return compile_unit_(bdir, unit, variant)
    finally:
        if os.environ.get("VF_PROFILE"):
            print(f"compile {unit}.{variant} {time.time() - t1:.1f}s at {time.time() - T0:.0f}", flush=True)


def compile_unit_(bdir, unit, variant):
    v = VARIANTS[variant]
    base, _, part = unit.partition("#")
    src = os.path.join(HARNESS, base + ".cpp")
    out = os.path.join(bdir, f"{unit.replace('#', '_')}.{variant}")
    cmd = list(v["cmd"]) + [f"-DVF_PART={part or 0}"]
    if os.environ.get("VF_CCACHE") and shutil.which("ccache"):
        # split compile and link so that ccache can help during development
        obj = out + ".o"
        c1 = ["ccache"] + cmd + ["-I" + REPO + "/include", "-I" + REPO + "/examples", "-I" + HARNESS, "-c", src, "-o", obj]
        r = subprocess.run(c1, capture_output=True, text=True)
        if r.returncode:
            return out, r.returncode, r.stdout + r.stderr
        c2 = cmd + [obj] + [os.path.join(bdir, x) for x in v.get("extra_obj", [])] + ["-o", out, "-pthread"] + v.get("libs", [])
        c2 = [c for c in c2 if not c.startswith("-include")]
        r = subprocess.run(c2, capture_output=True, text=True)
        return out, r.returncode, r.stdout + r.stderr
    cmd += ["-I" + REPO + "/include", "-I" + REPO + "/examples", "-I" + HARNESS, src]
    cmd += [os.path.join(bdir, x) for x in v.get("extra_obj", [])]
    cmd += ["-o", out, "-pthread"] + v.get("libs", [])
    r = subprocess.run(cmd, capture_output=True, text=True)
    return out, r.returncode, r.stdout + r.stderr


def build_extra(bdir, variants):
    for v in variants:
        for o in VARIANTS[v].get("extra_obj", []):
            p = os.path.join(bdir, o)
            if os.path.exists(p):
                continue
            src = os.path.join(HARNESS, o[:-2] + ".cc")
            r = subprocess.run(["clang++", "-std=c++17", "-O2", "-c", src, "-o", p], capture_output=True, text=True)
            if r.returncode:
                raise RuntimeError(r.stderr)


def norm_frame(fr):
    """'#1 0x.. in ns::f(args) /repo/include/x.h:12:3' -> 'f x.h' without line numbers"""
    m = re.search(r"#\d+ (?:0x[0-9a-f]+ in )?(.*)", fr)
    s = m.group(1) if m else fr
    f = re.search(r"(/\S+?):\d+", s)
    file = os.path.basename(f.group(1)) if f else ""
    name = s.split(" /")[0]
    name = re.sub(r"<.*", "", name)
    name = name.split("(")[0]
    return (name.strip() + "@" + file)[:120]


def san_reports(err):
    """sanitizer reports in a stderr text -> list of (key, detail)"""
    out = []
    for m in re.finditer(r"^(\S+?):(\d+):\d+: runtime error: (.*)$", err, re.M):
        kind = re.sub(r"0x[0-9a-f]+", "ADDR", m.group(3))
        kind = re.sub(r"-?\d+", "N", kind)
        tail = err[m.end():m.end() + 4000].split("\n")
        loc = os.path.basename(m.group(1))
        out.append((f"ubsan:{loc}:{kind[:100]}", f"{m.group(1)}:{m.group(2)} {m.group(3)} " + " | ".join(norm_frame(t) for t in tail[:8] if t.strip().startswith("#"))))
    for m in re.finditer(r"ERROR: (AddressSanitizer|MemorySanitizer): ([\w-]+)(.*)|WARNING: (MemorySanitizer): ([\w-]+)(.*)", err):
        tool = (m.group(1) or m.group(4))
        kind = (m.group(2) or m.group(5))
        frames = re.findall(r"^\s+#\d+ .*$", err[m.end():m.end() + 12000], re.M)[:25]
        loc = next((norm_frame(f) for f in frames if "/include/parlay/" in f or "/examples/" in f), norm_frame(frames[0]) if frames else "?")
        out.append((f"asan:{kind}:{loc}", kind + " " + " | ".join(norm_frame(f) for f in frames[:10])))
    for m in re.finditer(r"WARNING: ThreadSanitizer: ([^\n(]+).*?\n(.*?)^=+$", err, re.M | re.S):
        body = m.group(2)
        frames = re.findall(r"^\s+#\d+ .*$", body, re.M)
        rel = [norm_frame(f) for f in frames if "/include/parlay/" in f or "/examples/" in f]
        summ = re.search(r"SUMMARY: ThreadSanitizer: (.*)", body)
        # two accesses: first parlay frame of each stack
        stacks = re.split(r"\n\s*\n", body)
        tops = []
        for s in stacks[:2]:
            fs = [norm_frame(f) for f in re.findall(r"^\s+#\d+ .*$", s, re.M) if "/include/parlay/" in f or "/examples/" in f or "/harness/" in f]
            tops.append(fs[0] if fs else "?")
        key = "tsan:" + m.group(1).strip().replace(" ", "-") + ":" + "~".join(sorted(set(tops)))
        out.append((key, (summ.group(1) if summ else "") + " :: " + " | ".join(rel[:12])))
    for m in re.finditer(r"^==\d+== (\S[^\n]*)\n((?:==\d+==  +[^\n]*\n)+)", err, re.M):    # valgrind
        kind, frames = m.group(1), re.findall(r"(?:at|by) 0x[0-9A-F]+: (.*)", m.group(2))
        if not frames:
            continue
        kind = "definitely lost" if "definitely lost" in kind else re.sub(r"0x[0-9A-Fa-f]+", "ADDR", re.sub(r"\b[\d,]+\b", "N", kind))
        def vframe(f):
            q = re.search(r"\(([^()]*):\d+\)$", f)
            return (re.sub(r"[<(].*", "", f).strip() + "@" + (os.path.basename(q.group(1)) if q else ""))[:120]
        loc = next((vframe(f) for f in frames if "/include/parlay/" in f or "/examples/" in f), vframe(frames[0]))
        out.append((f"vg:{kind}:{loc}", m.group(1) + " " + " | ".join(vframe(f) for f in frames[:10])))
    # one per key
    seen = {}
    for k, d in out:
        seen.setdefault(k, d)
    return list(seen.items())


class Result:
    def __init__(self):
        self.fails = []      # (case, key, detail)
        self.done = {}       # case -> (evals, distinct, secs)
        self.events = {}
        self.digests = {}    # (case, what) -> hex
        self.samples = []
        self.ended = False
        self.notes = []


def run_once(exe, args, env, timeout, res, errfile, wrap=()):
    """run the executable; returns (rc or 'timeout', last_case_open, stderr)"""
    cur = None
    with open(errfile, "wb") as ef:
        try:
            p = subprocess.Popen(list(wrap) + [exe] + args, stdout=subprocess.PIPE, stderr=ef, env=env, text=True, errors="replace",
                                 cwd=os.path.dirname(exe), start_new_session=True)
        except OSError as e:
            return ("oserror %s" % e, None, "")
        killed = []

        def kill():
            killed.append(1)
            try:
                os.killpg(p.pid, 9)
            except OSError:
                pass
        over = threading.Event()

        def watch():
            end = time.time() + timeout
            while not over.wait(0.5):
                if time.time() > end or time.time() - T0 > STOP[0]:
                    kill()
                    return
        tm = threading.Thread(target=watch, daemon=True)
        tm.start()
        for line in p.stdout:
            f = line.rstrip("\n").split("\t")
            if f[0] == "VFCASE":
                cur = f[1]
            elif f[0] == "VFDONE" and len(f) >= 5:
                e, d, s = int(f[2]), int(f[3]), float(f[4])
                res.done[f[1]] = (e, d, s)
                cur = None
            elif f[0] == "VFFAIL" and len(f) >= 4:
                res.fails.append((f[1], f[2], f[3]))
            elif f[0] == "VFDIGEST" and len(f) >= 4:
                res.digests[(f[1], f[2])] = f[3]
            elif f[0] == "VFEVENT":
                res.events[f[1]] = res.events.get(f[1], 0) + int(f[2])
            elif f[0] == "VFSAMPLE":
                if len(res.samples) < 8:
                    res.samples.append(f[1])
            elif f[0] == "VFEND":
                res.ended = True
        p.wait()
        over.set()
        tm.join()
    with open(errfile, "rb") as ef:
        ef.seek(0, 2)
        n = ef.tell()
        ef.seek(max(0, n - 3000000))
        err = ef.read().decode("utf-8", "replace")
    rc = "timeout" if killed else p.returncode
    return rc, cur, err


def run_unit(exe, unit, variant, renv, timeout, bdir, tier, idx, only=None):
    res = Result()
    env = dict(os.environ)
    env.update(SAN_ENV)
    env["VERIF_TIER"] = tier
    env.setdefault("VERIF_SEED", "1")
    env["ASAN_SYMBOLIZER_PATH"] = env["TSAN_SYMBOLIZER_PATH"] = shutil.which("llvm-symbolizer") or ""
    env["VF_SCALE"] = str(VARIANTS[variant].get("scale", 1.0))
    env.update({k: str(v) for k, v in renv.items()})
    scratch = os.path.join(bdir, f"scratch{idx}")
    os.makedirs(scratch, exist_ok=True)
    env["VF_SCRATCH"] = scratch
    args = ["--only", only] if only else []
    crashes = 0
    attempt = 0
    while True:
        attempt += 1
        errfile = os.path.join(bdir, f"{unit.replace('#', '_')}.{variant}.{idx}.{attempt}.err")
        res.ended = False
        tmo = min(timeout, max(5.0, STOP[0] - (time.time() - T0)))
        rc, cur, err = run_once(exe, args, env, tmo, res, errfile, VARIANTS[variant].get("wrap", ()))
        reps = san_reports(err)
        for k, d in reps:
            res.fails.append((cur or "-", k, d))
        if rc in (0, 98) and res.ended:
            break
        if rc == 99 and res.ended and reps:
            break
        case = cur or "(exit)"
        if rc == "timeout":
            if time.time() - T0 > STOP[0] - 5:
                res.notes.append(f"deadline reached in {case}")
                break
            # run the case alone once more: only a repeated hang is believed
            r2 = Result()
            tmo2 = min(timeout, max(5.0, STOP[0] - (time.time() - T0)))
            rc2, cur2, err2 = run_once(exe, ["--only", case], env, tmo2, r2, errfile + ".re", VARIANTS[variant].get("wrap", ())) if cur else ("timeout", None, "")
            res.fails += r2.fails
            if rc2 == "timeout" and tmo2 >= timeout * 0.9:
                res.fails.append((case, f"hang:{case}", f"no progress within {timeout:.0f}s, twice ({unit}.{variant} {renv})"))
            elif rc2 == "timeout":
                res.notes.append(f"timeout in {case}, re-run cut short by the deadline")
            else:
                res.notes.append(f"timeout in {case} not repeated (rc {rc2})")
                if rc2 != 0:
                    for k, d in san_reports(err2):
                        res.fails.append((case, k, d))
        elif not (rc == 99 and reps) and not (rc == 98 and reps):
            sig = f"signal {-rc}" if isinstance(rc, int) and rc < 0 else f"exit {rc}"
            asrt = re.search(r"^.*(Assertion [`'].*failed|terminate called.*|what\(\).*|scheduler.*|SIGSEGV.*)$", err, re.M)
            tail = asrt.group(0) if asrt else err[-300:]
            res.fails.append((case, f"crash:{case}:{sig}", (sig + " " + tail.replace("\n", " "))[:600]))
        crashes += 1
        if not cur or crashes >= 3 or only:
            break
        args = ["--after", cur]
    return res


def load_known():
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return json.load(open(p)).get("findings", [])


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--keep", action="store_true")
    ap.add_argument("--only-unit")
    ap.add_argument("--only-case")
    a = ap.parse_args()
    prop, tier = a.property, a.tier
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    plan = PLAN[prop]
    runs = [r for r in plan["runs"] if tier == "thorough" or not r.get("thorough_only")]
    if a.only_unit:
        runs = [r for r in runs if r["unit"] == a.only_unit]
    bdir = tempfile.mkdtemp(prefix=f"vf-{prop}-")
    rc = 2
    try:
        rc = check(prop, tier, seed, plan, runs, bdir, a)
    except Exception as e:  # noqa: BLE001
        print(f"ERROR check {prop}: {e!r}")
        rc = 2
    finally:
        if a.keep:
            print("kept", bdir)
        else:
            shutil.rmtree(bdir, ignore_errors=True)
    sys.exit(rc)


def check(prop, tier, seed, plan, runs, bdir, a):
    builds = []
    for r in runs:
        if (r["unit"], r["variant"]) not in builds:
            builds.append((r["unit"], r["variant"]))
    build_extra(bdir, {v for _, v in builds})
    # the slowest builds first
    builds.sort(key=lambda b: -VARIANTS[b[1]].get("weight", 1))
    t = time.time()
    par = plan.get("parallel", 3)

    def go(i, r, exe):
        env = {"VF_ROUNDS": plan.get("rounds", 1)}
        env.update(r.get("env", {}))
        t1 = time.time()
        res = run_unit(exe, r["unit"], r["variant"], env,
                       r.get("timeout", 170 if tier == "quick" else 600), bdir, tier, i, a.only_case)
        res.secs = time.time() - t1
        if any(judged(r, c, k) for c, k, _ in res.fails):
            STOP[0] = min(STOP[0], max(240.0, time.time() - T0 + 60))
        return res
    only_keys = plan.get("keys")      # optional filter: which failure classes belong to this property
    known = [k for k in load_known() if k["property"] == prop]

    def judged(r, c, k):
        if only_keys and not any(fnmatch.fnmatchcase(k, pat) for pat in only_keys):
            return False
        return not any(kf["unit"] == r["unit"] and kf["case"] == c and kf["key"] == k for kf in known)
    # each run starts as soon as its executable is there
    ok, tb = True, 0.0
    started = {}
    with ThreadPoolExecutor(8) as bex, ThreadPoolExecutor(par) as rex:
        futs = {bex.submit(compile_unit, bdir, u, v): (u, v) for u, v in builds}
        for f in as_completed(futs):
            out, rc, log = f.result()
            tb = time.time() - t
            if rc:
                ok = False
                print(f"BUILD FAILED {futs[f]}:\n{log[:800]}")
                continue
            for i, r in enumerate(runs):
                if (r["unit"], r["variant"]) == futs[f]:
                    started[i] = rex.submit(go, i, r, out)
    # judge what could be built; without a violation there is no answer
    results = [(runs[i], started[i].result()) for i in sorted(started)]
    if not results:
        return 2
    fails = []   # (unit, variant, env, case, key, detail)
    evals = 0
    case_distinct = {}
    events, samples, notes, percase = {}, [], [], {}
    digests = {}         # (unit without part, case, what) -> {hex: [runs]}
    for r, res in results:
        for c, k, d in res.fails:
            fails.append((r["unit"], r["variant"], r.get("env", {}), c, k, d))
        for c, (e, d, s) in res.done.items():
            evals += e
            key = (r["unit"], c)
            case_distinct[key] = max(case_distinct.get(key, 0), d)
            percase.setdefault(f"{r['unit']}/{c}", [0, 0.0])
            percase[f"{r['unit']}/{c}"][0] += e
            percase[f"{r['unit']}/{c}"][1] = round(percase[f"{r['unit']}/{c}"][1] + s, 2)
        for (c, w), h in res.digests.items():
            digests.setdefault((r["unit"], c, w), {}).setdefault(h, []).append(r)
        for k, v in res.events.items():
            events[k] = events.get(k, 0) + v
        for s in res.samples:
            if len(samples) < 12 and s not in samples:
                samples.append(s)
        notes += [f"{r['unit']}.{r['variant']}: {n}" for n in res.notes]
        if not res.ended and not res.fails:
            notes.append(f"{r['unit']}.{r['variant']}: did not finish")
    # results that must be the same in every run
    for (u, c, w), by in sorted(digests.items()):
        events["digests_compared"] = events.get("digests_compared", 0) + sum(len(x) for x in by.values())
        if len(by) > 1:
            maj = max(by.values(), key=len)
            for h, rs in by.items():
                if rs is maj:
                    continue
                desc = lambda r: f"{r['variant']}@{r.get('env', {}).get('PARLAY_NUM_THREADS', 'default')}"  # noqa: E731
                fails.append((u, rs[0]["variant"], rs[0].get("env", {}), c, f"differs:{w}",
                              f"{w}: {h} in {', '.join(desc(r) for r in rs[:6])}; other results in {', '.join(desc(r) for r in maj[:6])}"))
    # route every failure through the known findings
    used, viol = [], []
    for (u, v, env, c, k, d) in fails:
        if only_keys and not any(fnmatch.fnmatchcase(k, pat) for pat in only_keys):
            notes.append(f"not judged here: {u}.{v} {c} {k}")
            continue
        hit = next((kf for kf in known if kf["unit"] == u and kf["case"] == c and kf["key"] == k), None)
        if hit:
            if hit not in used:
                used.append(hit)
        else:
            viol.append((u, v, env, c, k, d))
    for kf in used:
        print(f"KNOWN-FINDING: property={prop} {kf['what']}")
    wall = time.time() - T0
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": evals,
            "distinct_nontrivial": sum(case_distinct.values()),
            "rule": plan["rule"],
            "samples": samples or ["(none)"],
            "monitor_events": events,
            "cases": {k: {"evaluations": v[0], "seconds": v[1]} for k, v in sorted(percase.items())},
            "runs": [f"{r['unit']}.{r['variant']} {r.get('env', {})} {res.secs:.1f}s" for r, res in results],
            "notes": notes,
        },
        "assumptions": plan.get("assumptions", []),
        "wall_s": round(wall, 1),
        "violations": len({(x[0], x[3], x[4]) for x in viol}),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print(f"{prop} {tier} seed={seed}: build {tb:.0f}s total {wall:.0f}s evaluations={evals} "
          f"distinct={sum(case_distinct.values())} violations={ev['violations']}")
    for n in notes[:12]:
        print("note:", n)
    if viol:
        rdir = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(rdir, exist_ok=True)
        seen = set()
        for (u, v, env, c, k, d) in viol:
            if (u, c, k) in seen:
                continue
            seen.add((u, c, k))
            if len(seen) > 12:
                continue
            h = hashlib.sha1(f"{u}{c}{k}".encode()).hexdigest()[:10]
            rp = os.path.join(rdir, f"{prop}-{h}.json")
            json.dump({"property": prop, "unit": u, "variant": v, "env": env, "case": c, "key": k, "detail": d, "seed": seed, "tier": tier,
                       "command": f"VERIF_SEED={seed} python3 {VERIF}/tools/check.py {prop} --tier {tier} --only-unit {u} --only-case '{c}'"},
                      open(rp, "w"), indent=1)
            print(f"VIOLATION property={prop} replay={rp}")
            print(f"  {u}.{v} case={c} key={k}: {d[:300]}")
        return 1
    # nothing observed means the check did not check anything
    if not a.only_unit and not a.only_case:
        missing = [e for e in plan.get("require_events", []) if not events.get(e)]
        if evals == 0 or missing:
            print(f"ERROR: the monitors observed nothing (evaluations={evals}, missing events {missing})")
            return 2
        if any("did not finish" in n for n in notes):
            return 2
    return 0 if ok else 2


if __name__ == "__main__":
    main()
