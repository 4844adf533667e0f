#!/usr/bin/env python3
"""One property's check: rebuild, model-check the design modules, run the code, validate its traces.

    check.py <ID> [--thorough] [--replay FILE] [--scale F] [--keep]
    check.py setup

exit 0: held on everything explored; exit 1 + VIOLATION line: broken; exit 2: no answer.
"""
import concurrent.futures as cf
import fcntl, glob, hashlib, json, os, re, shutil, subprocess, sys, threading, time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = f"{V}/spec"
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
sys.path.insert(0, f"{V}/bin")
from props import PROPS  # noqa: E402


class NoAnswer(Exception):
    pass


def log(*a):
    print(*a, flush=True)


# ---------------------------------------------------------------- building

FLAVOURS = {
    # name: (rustflags, toolchain, extra args)
    "hook": ("--cfg grenad_verif", None, []),
    # what a user's release build does: no debug assertions, no overflow checks
    "rel": ("--cfg grenad_verif", None, ["--config", "profile.dev.debug-assertions=false", "--config", "profile.dev.overflow-checks=false"]),
    "plain": ("", None, []),
    "guard": ("--cfg grenad_verif --cfg gv_guard", None, []),
    "asan": ("--cfg grenad_verif --cfg gv_asan -Zsanitizer=address", "+nightly", ["--target", "x86_64-unknown-linux-gnu"]),
    "miri": ("--cfg grenad_verif", "+nightly", []),
}


def exe(flavour):
    sub = "x86_64-unknown-linux-gnu/debug" if flavour == "asan" else "debug"
    return f"{V}/target/{flavour}/{sub}/gv"


def build(flavour):
    if flavour == "miri":      # built by the run
        return None
    flags, tc, extra = FLAVOURS[flavour]
    tdir = f"{V}/target/{flavour}"
    os.makedirs(tdir, exist_ok=True)
    with open(f"{tdir}/.gvlock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        # cargo looks at modification times only: make it look again at the code under test
        for p in glob.glob(f"{tdir}/**/.fingerprint/grenad-*", recursive=True):
            shutil.rmtree(p, ignore_errors=True)
        env = dict(os.environ, RUSTFLAGS=flags, CARGO_TERM_COLOR="never")
        env.pop("CARGO_TARGET_DIR", None)
        cmd = ["cargo"] + ([tc] if tc else []) + ["build", "--offline", "--target-dir", tdir] + extra
        r = subprocess.run(cmd, cwd=f"{V}/harness", env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0 and "grenad_verif" in flags:
            # the re-export of the length codec may not fit this tree: do without it
            env["RUSTFLAGS"] = flags + " --cfg grenad_verif_novarint"
            r2 = subprocess.run(cmd, cwd=f"{V}/harness", env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r2.returncode == 0:
                log("  the length codec cannot be called directly on this tree")
                r = r2
    if r.returncode != 0:
        return r.stdout[-3000:]
    return None


# ---------------------------------------------------------------- TLC

def tlc(module, cfg, tag, workers=1, env=None, heap="2g", timeout=3000, fpmem=None):
    """Runs TLC; returns (returncode, output)."""
    d = f"{V}/work/tlc/{tag}"
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    with open(f"{d}/m.cfg", "w") as f:
        f.write(cfg)
    cmd = ["java", "-XX:+UseParallelGC", f"-XX:ParallelGCThreads={min(workers,4)}", f"-Xmx{heap}", "-Xss64m",
           f"-Djava.io.tmpdir={d}", "-cp", JARS, f"-DTLA-Library={SPEC}", "tlc2.TLC", "-workers", str(workers), "-metadir", f"{d}/meta", "-noGenerateSpecTE",
           "-config", f"{d}/m.cfg", f"{SPEC}/{module}.tla"]
    try:
        r = subprocess.run(cmd, cwd=d, env=dict(os.environ, **(env or {})), stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        return 124, "timeout"
    shutil.rmtree(f"{d}/meta", ignore_errors=True)
    return r.returncode, r.stdout


def counts(out):
    m = re.findall(r"(\d[\d,]*) states generated, (\d[\d,]*) distinct states found", out)
    if not m:
        return 0, 0
    return int(m[-1][1].replace(",", "")), int(m[-1][0].replace(",", ""))


def run_apalache(mc):
    """One Apalache query: symbolic, integers unbounded."""
    d = f"{V}/work/tlc/ap-{os.getpid()}-{mc['name']}"
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    shutil.copy(f"{SPEC}/{mc['module']}.tla", d)
    try:
        r = subprocess.run(["apalache-mc", "check", f"--out-dir={d}/out"] + mc["args"] + [f"{mc['module']}.tla"], cwd=d,
                           env=dict(os.environ, JVM_ARGS="-Xmx3g"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           timeout=mc.get("timeout", 600))
        rc, out = r.returncode, r.stdout
    except subprocess.TimeoutExpired:
        rc, out = 124, "timeout"
    ok = rc == 0 and "The outcome is: NoError" in out if mc.get("expect", "ok") == "ok" else rc == 12
    shutil.rmtree(f"{d}/out", ignore_errors=True)
    return dict(name=mc["name"], ok=ok, rc=rc, states=0, transitions=0, out=out, expect=mc.get("expect", "ok"), symbolic=True)


def run_mc(mc):
    """mc: dict(module, cfg, expect='ok'|'violation', name). Returns (name, ok, states, transitions, output)."""
    if mc.get("tool") == "apalache":
        return run_apalache(mc)
    rc, out = tlc(mc["module"], mc["cfg"], f"mc-{os.getpid()}-{mc['name']}", workers=mc.get("workers", 2),
                  heap=mc.get("heap", "3g"), timeout=mc.get("timeout", 3000))
    d, g = counts(out)
    if mc.get("expect", "ok") == "ok":
        ok = rc == 0
    else:
        ok = "is violated" in out or "was violated" in out
    return dict(name=mc["name"], ok=ok, rc=rc, states=d, transitions=g, out=out, expect=mc.get("expect", "ok"))


def spec_hash(extra=""):
    h = hashlib.sha256(extra.encode())
    for p in sorted(glob.glob(f"{SPEC}/*.tla")):
        h.update(open(p, "rb").read())
    return h.hexdigest()[:16]


def behaviours(b, prop):
    """Behaviours printed by TLC while exploring a design module; they depend on the specification
    only and are kept (keyed by its hash) between runs."""
    key = spec_hash(json.dumps(b, sort_keys=True))
    path = f"{V}/work/behaviours/{prop}-{key}.ndjson"
    if os.path.exists(path):
        return path
    os.makedirs(os.path.dirname(path), exist_ok=True)
    rc, out = tlc(b["module"], b["cfg"], f"beh-{os.getpid()}-{prop}", workers=1, heap="6g")
    if rc != 0:
        raise NoAnswer(f"behaviour generation failed: {out[-1500:]}")
    recs = []
    for line in out.splitlines():
        if line.startswith('"{'):
            recs.append(json.loads(json.loads(line)))
    group = b.get("group")
    lines = []
    if group:
        g = {}
        for r in recs:
            k = json.dumps([r[x] for x in group])
            g.setdefault(k, dict({x: r[x] for x in group}, paths=[]))["paths"].append(r["path"])
        lines = [json.dumps(x) for x in g.values()]
    else:
        lines = [json.dumps(r) for r in recs]
    tmp = f"{path}.{os.getpid()}"
    with open(tmp, "w") as f:
        f.write("\n".join(lines) + "\n")
    os.replace(tmp, path)
    return path


# ---------------------------------------------------------------- running the code

class Violation(Exception):
    def __init__(self, what, data):
        super().__init__(what)
        self.what, self.data = what, data


def run_gv(prop, step, tier, outdir, scale, behav=None, only=None, shards=8, timeout=2500):
    os.makedirs(outdir, exist_ok=True)
    flavour = step["flavour"]
    head = [exe(flavour)]
    env = dict(os.environ)
    if flavour == "miri":
        head = ["cargo", "+nightly", "miri", "run", "--offline", "--target-dir", f"{V}/target/miri", "--"]
        env.update(RUSTFLAGS=FLAVOURS["miri"][0], MIRIFLAGS="-Zmiri-disable-isolation -Zmiri-permissive-provenance")
        timeout = max(timeout, 6000)
    cmd = head + [step.get("run", prop), "--out", outdir, "--seed", str(SEED + step.get("seed", 0)), "--shards", str(shards), "--scale", str(scale * step.get("scale", 1))]
    if tier == "thorough":
        cmd.append("--thorough")
    if behav:
        cmd += ["--behaviours", behav]
    if only is not None:
        cmd += ["--only", str(only)]
    env.update(step.get("env", {}))
    log(f"  run: {' '.join(os.path.basename(c) if c.startswith(V) else c for c in cmd)}")
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=env, errors="replace", text=True,
                           cwd=f"{V}/harness" if flavour == "miri" else None)
        if flavour == "miri" and r.returncode != 0 and "Undefined Behavior" not in r.stdout and "memory leaked" not in r.stdout:
            log(f"  miri could not run this: {r.stdout[-600:]}")
            return dict(scenarios=0, lines=0, ops=0, distinct=0, extra={}, samples=[])
    except subprocess.TimeoutExpired:
        raise NoAnswer("the run did not end")
    if r.returncode == 3:
        raise Violation("an operation did not end", dict(kind="hang", scenario=[int(open(f"{outdir}/hang").read())]))
    if r.returncode == 4:
        raise NoAnswer(f"harness failed: {r.stdout[-1500:]}")
    if r.returncode == 5:
        raise Violation("memory discipline broken", dict(kind="memory", scenario=current(outdir), output=r.stdout[-6000:]))
    if r.returncode == -9:
        raise NoAnswer("harness was killed (out of memory?)")
    if r.returncode != 0:
        raise Violation(f"the process died (status {r.returncode})", dict(kind="crash", scenario=current(outdir), output=r.stdout[-6000:]))
    st = json.load(open(f"{outdir}/stats.json"))
    return st


def current(outdir):
    return sorted(int(open(p).read() or -1) for p in glob.glob(f"{outdir}/cur*"))


def validate(prop, trace, tag, path):
    cfg = trace["cfg"]
    rc, out = tlc(trace["module"], cfg, f"tr-{os.getpid()}-{prop}-{tag}", env={"TRACE": path},
                  heap=trace.get("heap", "2g"))
    known = set(re.findall(r'"KNOWN ([\w-]+)"', out))
    m = re.search(r'"REJECTED AT LINE", (\d+)', out)
    d, g = counts(out)
    if rc == 0:
        return dict(ok=True, known=known, states=d)
    if m:
        return dict(ok=False, line=int(m.group(1)), known=known, states=d)
    i = out.find("Error:")
    raise NoAnswer(f"TLC failed on {path}: {out[i:i+1500] if i >= 0 else out[-2500:]}")


def context(path, line):
    """The rejected line with the beginning of its scenario."""
    sc, begin, tail = None, None, []
    with open(path) as f:
        for i, l in enumerate(f, 1):
            if l.startswith('{"e":"begin"'):
                begin, tail = l, []
                try:
                    sc = json.loads(l).get("sc")
                except ValueError:
                    sc = None
            else:
                tail.append(l)
                tail = tail[-25:]
            if i == line:
                break
    return sc, (begin or "")[:3000], [t[:2000] for t in tail]


# ---------------------------------------------------------------- main

def known_findings():
    ids = {}
    p = f"{V}/known/findings.jsonl"
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("{"):
                d = json.loads(l)
                ids[d["id"]] = d
    return ids


def main():
    args = sys.argv[1:]
    if args and args[0] == "setup":
        return setup()
    prop = args[0]
    tier = "thorough" if "--thorough" in args or os.environ.get("VERIF_TIER") == "thorough" else "quick"
    scale = float(args[args.index("--scale") + 1]) if "--scale" in args else 1.0
    global SEED
    replay = None
    if "--replay" in args:
        replay = json.load(open(args[args.index("--replay") + 1]))
        tier, SEED = replay["tier"], replay["seed"]
    P = PROPS[prop]
    t0 = time.time()
    work = f"{V}/work/run-{prop}-{os.getpid()}"
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    os.makedirs(f"{V}/evidence", exist_ok=True)
    try:
        rc = check(prop, P, tier, scale, work, replay, t0)
    except NoAnswer as e:
        log(f"NO ANSWER: {e}")
        rc = 2
    finally:
        if "--keep" not in args:
            shutil.rmtree(work, ignore_errors=True)
            for p in glob.glob(f"{V}/work/tlc/*-{os.getpid()}-*"):
                shutil.rmtree(p, ignore_errors=True)
    sys.exit(rc)


def check(prop, P, tier, scale, work, replay, t0):
    flavours = sorted({s["flavour"] for s in P["steps"](tier)})
    pool = cf.ThreadPoolExecutor(8)
    # design level, concurrently with the build
    mcs = [] if replay else [pool.submit(run_mc, m) for m in P.get("mc", lambda t: [])(tier)]
    btime = time.time()
    fallback = False
    with cf.ThreadPoolExecutor(4) as bpool:
        errs = dict(zip(flavours, bpool.map(build, flavours)))
    for f in flavours:
        err = errs[f]
        if err and f in ("hook", "rel", "asan", "guard", "miri"):
            # the hooks do not fit this tree: use what can be checked without them
            log(f"  {f} build failed, falling back to the plain build")
            if not fallback:
                err2 = build("plain")
                if err2:
                    raise NoAnswer(f"build failed:\n{err2}")
            fallback = True
        elif err:
            raise NoAnswer(f"build failed:\n{err}")
    log(f"  built {flavours} in {time.time()-btime:.1f}s")
    steps = P["steps"](tier)
    if fallback:
        steps = [dict(s, flavour="plain") for s in steps if not s.get("needs_hook")]
    known, stats, violation = set(), [], None
    ntraces = tlines = tstates = 0
    stop = threading.Event()

    def do(si, s):
        """One step: run the code, validate what it recorded. Returns (stats, known, states, violation)."""
        if stop.is_set():
            return None
        beh = behaviours(s["behaviours"], prop) if s.get("behaviours") else None
        out = f"{work}/s{si}"
        try:
            st = run_gv(prop, s, tier, out, scale, beh, only=replay.get("scenario") if replay else None, shards=s.get("shards", 8))
        except Violation as e:
            stop.set()
            return None, set(), 0, (si, e.what, e.data)
        if s.get("arith") and st.get("arith"):
            return st, set(), 0, (si, "an overflow", dict(kind="overflow", output=st["arith"]))
        kn, states, bad = set(), 0, None
        shards = [p for p in sorted(glob.glob(f"{out}/shard*.ndjson")) if os.path.getsize(p)]
        if s.get("trace"):
            res = list(pool.map(lambda p: validate(prop, s["trace"], f"s{si}-" + os.path.basename(p), p), shards))
            for p, r in zip(shards, res):
                kn |= r["known"]
                states += r["states"]
                if not r["ok"] and bad is None:
                    sc, b, tail = context(p, r["line"])
                    bad = (si, "the specification does not allow the recorded step",
                           dict(kind="rejected", scenario=[sc], line=r["line"], begin=b, tail=tail))
        return st, kn, states, bad

    todo = [(si, s) for si, s in enumerate(steps) if not replay or replay.get("step") == si]
    seq = [x for x in todo if not x[1].get("aside")]
    aside = [x for x in todo if x[1].get("aside")]
    results = []
    with cf.ThreadPoolExecutor(4) as steppool:
        fs = [steppool.submit(do, si, s) for si, s in aside]
        for si, s in seq:
            r = do(si, s)
            results.append(r)
            if r and r[3]:
                stop.set()
                break
        results += [f.result() for f in fs]
    for r in results:
        if r is None:
            continue
        st, kn, states, bad = r
        known |= kn
        tstates += states
        if bad and violation is None:
            violation = bad
        if st:
            stats.append(st)
            ntraces += st["scenarios"]
            tlines += st["lines"]
    mres = [m.result() for m in mcs]
    for m in mres:
        size = "symbolic" if m.get("symbolic") else f"{m['states']} states, {m['transitions']} transitions"
        log(f"  model {m['name']}: {'as expected' if m['ok'] else 'UNEXPECTED'} ({m['expect']}), {size}")
        if not m["ok"]:
            log(m["out"][-3000:])
            raise NoAnswer(f"design model {m['name']} gave rc {m['rc']}")
    kf = known_findings()
    for k in sorted(known):
        log(f"KNOWN-FINDING: property={kf[k]['property']} {kf[k]['what']}")
    rc = 0
    if violation:
        si, what, data = violation
        sc = (data.get("scenario") or [None])[0]
        rep = f"{V}/evidence/{prop}-violation.json"
        with open(rep, "w") as f:
            json.dump(dict(property=prop, tier=tier, seed=SEED, step=si, scenario=sc, what=what, data=data), f, indent=1)
        log(f"  {what}: scenario {sc}")
        if data.get("begin"):
            log("   " + data["begin"][:600].strip())
            for l in data["tail"][-4:]:
                log("   " + l[:600].strip())
        if data.get("output"):
            log(data["output"][-1500:])
        log(f"VIOLATION property={prop} replay=evidence/{prop}-violation.json")
        rc = 1
    if not replay:
        evidence(prop, P, tier, mres, stats, ntraces, tlines, tstates, known, 1 if violation else 0, time.time() - t0, fallback)
    log(f"{prop} {tier}: {'VIOLATED' if rc else 'held'}; {ntraces} traces, {tlines} trace lines, {time.time()-t0:.1f}s")
    return rc


def evidence(prop, P, tier, mres, stats, ntraces, tlines, tstates, known, nviol, wall, fallback):
    extra = {}
    for s in stats:
        for k, v in s["extra"].items():
            extra[k] = max(extra.get(k, 0), v) if k.startswith("max_") else extra.get(k, 0) + v
    samples = [x for s in stats for x in s["samples"]][:5]
    cov = dict(
        states=sum(m["states"] for m in mres) + tstates,
        transitions=sum(m["transitions"] for m in mres) + tlines,
        traces_validated_against_impl=ntraces,
        samples=samples or ["none"],
        evaluations=sum(s["ops"] for s in stats),
        distinct_nontrivial=sum(s["distinct"] for s in stats),
        rule=P["rule"],
        design_models=[dict(model=m["name"], expected=m["expect"], states=m["states"], transitions=m["transitions"],
                            tool="apalache" if m.get("symbolic") else "tlc") for m in mres],
        trace_lines=tlines,
        measured=extra,
        known_findings_met=sorted(known),
        hooks="not available on this tree, hook-dependent steps skipped" if fallback else "on",
    )
    ev = dict(property=prop, tier=tier, seed=SEED, level=P["level"], coverage=cov,
              assumptions=P.get("assumptions", []), wall_s=round(wall, 1), violations=nviol)
    with open(f"{V}/evidence/{prop}.json", "w") as f:
        json.dump(ev, f, indent=1)


def setup():
    for f in ("hook", "rel", "plain", "guard", "asan"):
        t = time.time()
        err = build(f)
        log(f"{f}: {'FAILED ' + err if err else 'built'} {time.time()-t:.0f}s")
        if err:
            sys.exit(2)
    with cf.ThreadPoolExecutor(4) as pool:
        jobs = []
        for p, P in PROPS.items():
            todo = []
            for s in P["steps"]("quick"):
                if s.get("behaviours") and s["behaviours"] not in todo:
                    todo.append(s["behaviours"])
            jobs += [pool.submit(behaviours, b, p) for b in todo]
        for j in jobs:
            log("behaviours:", j.result())
    sys.exit(0)


if __name__ == "__main__":
    main()
