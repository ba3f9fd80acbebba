"""Shared machinery of the checks: build a harness from /repo's working tree, run it, run TLC (model
checking of the specification, generation of scenarios, validation of recorded traces), report."""
import json, os, re, shutil, subprocess, sys, tempfile, time, hashlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("GBS_REPO", "/repo")
EVID = os.environ.get("VERIF_EVID", os.path.join(VERIF, "evidence"))
SPEC = os.path.join(VERIF, "spec")
HARN = os.path.join(VERIF, "harness")
TLA = "/opt/veriftools/tla"
CP = f"{TLA}/tla2tools.jar:{TLA}/CommunityModules-deps.jar"
CXX = "/usr/bin/clang++-18"
CXXFLAGS = ["-std=c++20", "-O1", "-DNDEBUG", "-D_GLIBCXX_ASSERTIONS", "-Wno-everything", "-ffp-contract=off",
            f"-I{REPO}", f"-I{REPO}/inc", "-I/usr/include/eigen3", f"-I{HARN}"]
LIBS = ["-lnlopt", "-ltbb", "-lpthread"]


class Broken(Exception):
    """the check cannot give an answer (harness does not build, TLC fails): exit 2, no verdict"""


class Ctx:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.t0 = time.time()
        self.dir = tempfile.mkdtemp(prefix=f"gbs_{pid}_", dir=os.environ.get("VERIF_TMP", "/tmp"))
        self.procs = []
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "events_validated": 0,
                    "samples": 0, "mc_runs": [], "trace_runs": []}
        self.samples = []
        self.known = load_known(pid)
        self.known_hit = {}
        self.violations = []
        self.cls = None

    def p(self, *a):
        return os.path.join(self.dir, *a)

    def close(self):
        for x in self.procs:
            if x.poll() is None:
                x.kill()
        shutil.rmtree(self.dir, ignore_errors=True)


def load_known(pid):
    """known findings: lines  `known: property=<id> key=<key> <text>` in findings/known_findings.txt"""
    out = {}
    f = os.path.join(VERIF, "findings", "known_findings.txt")
    if os.path.exists(f):
        for l in open(f):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", l.strip())
            if m and m.group(1) == pid:
                out[m.group(2)] = m.group(3)
    return out


def java_classes(ctx):
    if ctx.cls:
        return ctx.cls
    d = ctx.p("cls")
    os.makedirs(d)
    src = [os.path.join(r, f) for r, _, fs in os.walk(os.path.join(SPEC, "java")) for f in sorted(fs) if f.endswith(".java")]
    r = subprocess.run(["javac", "-nowarn", "-cp", CP, "-d", d] + src, capture_output=True, text=True)
    if r.returncode:
        raise Broken("javac: " + r.stderr)
    ctx.cls = d
    return d


def start_build(ctx, name, extra=()):
    """compile harness/<name>.cpp against REPO; returns (Popen, exe)"""
    exe = ctx.p(name)
    cmd = [CXX] + CXXFLAGS + list(extra) + [os.path.join(HARN, name + ".cpp"), "-o", exe] + LIBS
    log = open(ctx.p(name + ".build.log"), "w")
    pr = subprocess.Popen(cmd, stdout=log, stderr=subprocess.STDOUT)
    ctx.procs.append(pr)
    return pr, exe, ctx.p(name + ".build.log")


def finish_build(b):
    pr, exe, log = b
    if pr.wait() != 0:
        raise Broken("harness does not build against the current tree:\n" + open(log).read()[-4000:])
    return exe


STATES = re.compile(r"(\d+) states generated, (\d+) distinct states found")


def start_tlc(ctx, module, cfg, env=None, workers=8, extra=(), heap="6g", tag=""):
    cls = java_classes(ctx)
    meta = ctx.p(f"meta_{module}_{tag}")
    out = ctx.p(f"tlc_{module}_{tag}.out")
    e = dict(os.environ)
    e.update(env or {})
    cmd = ["java", "-XX:+UseParallelGC", f"-Xmx{heap}", "-Xss16m", "-cp", f"{cls}:{CP}", f"-DTLA-Library={SPEC}", "tlc2.TLC",
           "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE", "-config", os.path.join(SPEC, cfg)] + list(extra) + [os.path.join(SPEC, module + ".tla")]
    f = open(out, "w")
    pr = subprocess.Popen(cmd, stdout=f, stderr=subprocess.STDOUT, env=e, cwd=ctx.dir)
    ctx.procs.append(pr)
    return pr, out, module, cfg, tag


def finish_tlc(ctx, h, timeout=800, ok_codes=(0,)):
    pr, out, module, cfg, tag = h
    try:
        pr.wait(timeout=timeout)
    except subprocess.TimeoutExpired:
        pr.kill()
        raise Broken(f"TLC on {module} ran out of its {timeout} s")
    txt = open(out, errors="replace").read()
    if pr.returncode not in ok_codes:
        txt = "\n".join(l for l in txt.splitlines() if not l.startswith('<<"'))
        raise Broken(f"TLC on {module} ({cfg}) exited {pr.returncode}:\n" + txt[-6000:])
    m = None
    for m in STATES.finditer(txt):
        pass
    gen, dist = (int(m.group(1)), int(m.group(2))) if m else (0, 0)
    return txt, gen, dist


def model_check(ctx, module, cfg=None, env=None, workers=8, extra=(), heap="6g", tag="", timeout=800):
    """model checking of the specification itself: an error here means the specification is wrong, not the
    code, so it is `Broken`, never a violation"""
    h = start_tlc(ctx, module, cfg or module + ".cfg", env, workers, extra, heap, tag)
    return finish_mc(ctx, h, timeout)


def finish_mc(ctx, h, timeout=800):
    txt, gen, dist = finish_tlc(ctx, h, timeout)
    if "No error has been found" not in txt and "-simulate" not in txt:
        raise Broken("model checking did not complete: " + txt[-3000:])
    ctx.cov["states"] += dist
    ctx.cov["transitions"] += gen
    ctx.cov["mc_runs"].append({"module": h[2], "cfg": h[3], "distinct_states": dist, "generated": gen})
    return txt


def scenarios(txt, path, tag="SCN", limit=None, seed=0):
    """scenarios printed by TLC as <<"SCN", ...>> -> lines of tokens; deterministic subset when limited"""
    res = set()
    for l in txt.splitlines():
        if l.startswith(f'<<"{tag}"'):
            toks = re.findall(r'"([^"]*)"|(-?\d+)|(TRUE|FALSE)', l)
            res.add(" ".join(a or b or c for a, b, c in toks[1:]))
    res = sorted(res)
    tot = len(res)
    if limit and tot > limit:
        res.sort(key=lambda s: hashlib.sha256(f"{seed}:{s}".encode()).hexdigest())
        res = sorted(res[:limit])
    with open(path, "w") as f:
        f.write("\n".join(res) + ("\n" if res else ""))
    return tot, len(res)


def run_harness(ctx, exe, out, args, timeout=600, env=None):
    e = dict(os.environ)
    e.update(env or {})
    try:
        r = subprocess.run([exe, out] + [str(a) for a in args], capture_output=True, text=True, timeout=timeout, cwd=ctx.dir, env=e)
    except subprocess.TimeoutExpired:
        raise Broken("harness ran out of time")
    if r.returncode:
        raise Broken(f"harness exited {r.returncode}: {r.stderr[-2000:]}")
    return out


REJ = re.compile(r'<<"REJECT", (\d+), (\d+), "([^"]*)"')


def _tlc_trace(ctx, module, cfg, path, tag, workers, timeout, extra_env=None, heap="10g"):
    env = {"TRACE": path}
    env.update(extra_env or {})
    h = start_tlc(ctx, module, cfg, env, workers, (), heap, tag)
    txt, gen, dist = finish_tlc(ctx, h, timeout)
    if "No error has been found" not in txt:
        raise Broken("trace validation did not complete: " + txt[-3000:])
    rej = [(int(a), int(b), c) for a, b, c in REJ.findall(txt)]
    return rej, gen, dist


def validate(ctx, module, out, rerun, cfg=None, keyfn=None, workers=8, timeout=800, env=None, min_traces=1, min_events=1, racy=False):
    """validate the recorded traces in `out` (ndjson) against <module>.tla.  `rerun(path)` records the same
    traces again: a rejection counts only when the same trace and event are rejected again (racy: the code
    under test is concurrent, one rejected recording of it is enough)."""
    cfg = cfg or "Trace.cfg"
    lines = [l for l in open(out, errors="replace") if l.strip()]
    recs = [json.loads(l) for l in lines]
    nev = sum(len(r.get("ev", [])) for r in recs)
    crashed = any(r.get("kind") == "crash" for r in recs)
    if not crashed and (len(recs) < min_traces or nev < min_events):
        raise Broken(f"{module}: only {len(recs)} traces / {nev} events were recorded")
    rej, gen, dist = _tlc_trace(ctx, module, cfg, out, os.path.basename(out), workers, timeout, env)
    rejt = {t for t, _, _ in rej}
    # every event of every trace not rejected must have been consumed
    expect = 0
    firstrej = {}
    for t, i, op in rej:
        firstrej[t] = min(i, firstrej.get(t, 10**9))
    for t, r in enumerate(recs, 1):
        expect += 1 + (firstrej[t] if t in firstrej else len(r.get("ev", [])))
    if dist != expect:
        raise Broken(f"{module}: {dist} states instead of {expect}: some recorded events were not examined")
    ctx.cov["traces_validated_against_impl"] += len(recs)
    ctx.cov["events_validated"] += nev
    ctx.cov["trace_runs"].append({"module": module, "traces": len(recs), "events": nev, "distinct_states": dist})
    ctx.cov["states"] += dist
    ctx.cov["transitions"] += gen
    ops = {}
    for r in recs:
        for e in r.get("ev", []):
            k = e.get("op", "?")
            ops[k] = ops.get(k, 0) + 1
    ctx.cov.setdefault("events_by_op", {})
    for k, v in ops.items():
        ctx.cov["events_by_op"][k] = ctx.cov["events_by_op"].get(k, 0) + v
    for r in recs[:2]:
        s = json.dumps(r)
        ctx.samples.append(s[:400])
    if not rej:
        return
    # confirm
    out2 = out + ".again"
    rerun(out2)
    recs2 = [json.loads(l) for l in open(out2, errors="replace") if l.strip()]
    rej2, _, _ = _tlc_trace(ctx, module, cfg, out2, os.path.basename(out2), workers, timeout, env)
    again = {(recs2[t - 1].get("id"), i, op) for t, i, op in rej2}
    for t, i, op in rej:
        r = recs[t - 1]
        if (r.get("id"), i, op) not in again and (op == "crash" or not racy):
            raise Broken(f"{module}: rejection of trace {r.get('id')} event {i} ({op}) did not repeat")
        key = keyfn(r, i, op) if keyfn else None
        if key and key in ctx.known:
            ctx.known_hit.setdefault(key, f"{module} trace {r.get('id')} event {i} {op}")
            continue
        ctx.violations.append({"module": module, "trace": r, "event": i, "op": op, "key": key})


def finish(ctx, level="model_checking", note=None, extra=None):
    for k, v in sorted(ctx.known_hit.items()):
        print(f"KNOWN-FINDING: property={ctx.pid} {k}: {ctx.known[k]}")
    ev = {"property": ctx.pid, "tier": ctx.tier, "seed": ctx.seed, "level": level, "coverage": ctx.cov,
          "wall_s": round(time.time() - ctx.t0, 2), "violations": len(ctx.violations)}
    ctx.cov["samples"] = ctx.samples[:6]
    if extra:
        ctx.cov.update(extra)
    rc = 0
    old = os.path.join(EVID, "replay", f"{ctx.pid}.json")
    if os.path.exists(old):
        os.remove(old)
    if ctx.violations:
        rd = os.path.join(EVID, "replay")
        os.makedirs(rd, exist_ok=True)
        path = os.path.join(rd, f"{ctx.pid}.json")
        with open(path, "w") as f:
            json.dump({"property": ctx.pid, "seed": ctx.seed, "violations": ctx.violations[:20]}, f, indent=1)
        for v in ctx.violations[:5]:
            print(f"rejected: {v['module']} trace id={v['trace'].get('id')} event {v['event']} op={v['op']}: "
                  + json.dumps(v["trace"].get("ev", [{}])[v["event"] - 1] if v["trace"].get("ev") else {})[:600])
        print(f"VIOLATION property={ctx.pid} replay={path}")
        rc = 1
    os.makedirs(EVID, exist_ok=True)
    with open(os.path.join(EVID, f"{ctx.pid}.json"), "w") as f:
        json.dump(ev, f, indent=1)
    c = ctx.cov
    print(f"{ctx.pid} {ctx.tier}: states={c['states']} traces={c['traces_validated_against_impl']} events={c['events_validated']} "
          f"violations={len(ctx.violations)} known={len(ctx.known_hit)} wall={ev['wall_s']}s")
    return rc


def main(run):
    pid, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else "quick")
    ctx = Ctx(pid, tier)
    try:
        run(ctx)
        rc = finish(ctx)
    except Broken as e:
        print(f"NO ANSWER for {pid}: {e}", file=sys.stderr)
        rc = 2
    finally:
        ctx.close()
    sys.exit(rc)
