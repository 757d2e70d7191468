import argparse, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, time, threading
from concurrent.futures import ThreadPoolExecutor
import build
VERIF = build.VERIF

class Ctx:
    def __init__(self, prop, tier, bdir, only):
        self.prop, self.tier, self.bdir, self.only = prop, tier, bdir, only
        self.B = build.Builder(bdir)
        self.runs = []
        self.thorough = tier == "thorough"
    def run(self, so, scen, np, name=None, nodes=None, budget=0, opts=None, env=None, eager=None, rma=None, kinds=None, workers=2, time=None, max_exec=None, max_steps=None, tsan=0, cpu=None):
        n = name or "%s/%s" % (os.path.basename(so)[:-3], scen)
        a = ["--so", so, "--scenario", scen, "--np", str(np), "--budget", str(budget), "--workers", str(workers)]
        if nodes: a += ["--nodes", nodes]; n += "/nodes=" + nodes
        else: n += "/np=%d" % np
        if budget: n += "/b%d" % budget
        if eager is not None: a += ["--eager", str(eager)]; n += "/eager=%d" % eager
        if rma is not None: a += ["--rma", str(rma)]; n += "/rma=%d" % rma
        if kinds is not None: a += ["--kinds", str(kinds)]; n += "/kinds=%x" % kinds
        for k, v in {k: int(v) if isinstance(v, bool) else v for k, v in (opts or {}).items()}.items(): a += ["--opt", "%s=%s" % (k, v)]; n += "/%s=%s" % (k, v)
        for k, v in (env or {}).items(): a += ["--env", "%s=%s" % (k, v)]; n += "/%s=%s" % (k.replace("COMEX_", ""), v)
        if time is None: time = 300 if self.thorough else 60
        a += ["--time", str(time)]
        if max_exec: a += ["--max-exec", str(max_exec)]
        if max_steps: a += ["--max-steps", str(max_steps)]
        if tsan: a += ["--tsan", "1"]; n += "/mem"
        if cpu: a += ["--cpu", str(cpu)]
        if self.only and not re.search(self.only, n): return
        self.runs.append(dict(name=n, args=a, workers=workers, time=time))

def one(ctx, r, extra=()):
    t = time.time(); res = None
    d = tempfile.mkdtemp(dir=ctx.bdir)
    p = subprocess.Popen([ctx.B.sim] + r["args"] + ["--dir", d] + list(extra), stdout=subprocess.PIPE, stderr=subprocess.PIPE, start_new_session=True, cwd=d,
                         env={"PATH": os.environ.get("PATH", ""), "HOME": d, "LD_LIBRARY_PATH": os.environ.get("LD_LIBRARY_PATH", "")})
    try:
        out, err = p.communicate(timeout=r["time"] + 120)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL); out, err = p.communicate(); r["hang"] = True
    try: os.killpg(p.pid, signal.SIGKILL)
    except ProcessLookupError: pass
    shutil.rmtree(d, ignore_errors=True)
    out = out.decode(errors="replace"); err = err.decode(errors="replace")
    r["wall"] = time.time() - t; r["rc"] = p.returncode; r["err"] = err[-600:]
    if p.returncode in (0, 1):
        try: r["json"] = json.loads(out[out.index('{"scenario"'):])
        except ValueError: r["rc"] = 99; r["err"] = out[-300:] + err[-300:]
    return r

def load_known():
    f = os.path.join(VERIF, "known-findings.jsonl"); k = []
    if os.path.exists(f):
        for l in open(f):
            l = l.strip()
            if l.startswith("{"): k.append(json.loads(l))
    return [x for x in k if x.get("status") == "known"]

def main(argv):
    ap = argparse.ArgumentParser(); ap.add_argument("prop", nargs="?"); ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick")); ap.add_argument("--keep"); ap.add_argument("--only"); ap.add_argument("--replay"); ap.add_argument("-v", action="store_true"); ap.add_argument("--selftest", action="store_true")
    a = ap.parse_args(argv)
    rep = None
    if a.selftest:
        bdir = tempfile.mkdtemp(prefix="gaverif.", dir=os.environ.get("TMPDIR", "/tmp"))
        try: B = build.Builder(bdir); B.compile(); print("simulator builds"); return 0
        except build.BuildError as e: print("ERROR: %s" % e); return 2
        finally: shutil.rmtree(bdir, ignore_errors=True)
    if a.replay:
        rep = json.load(open(a.replay)); a.prop = rep["property"]; a.tier = rep["tier"]
    if not a.prop: ap.error("property id needed")
    import checks
    if a.prop not in checks.PROPS: print("unknown property", a.prop); return 2
    t0 = time.time()
    bdir = a.keep or tempfile.mkdtemp(prefix="gaverif.", dir=os.environ.get("TMPDIR", "/tmp"))
    try:
        ctx = Ctx(a.prop, a.tier, bdir, a.only)
        try: checks.PROPS[a.prop](ctx)
        except build.BuildError as e:
            print("ERROR: build failed:\n%s" % e); return 2
        tb = time.time() - t0
        if rep:
            for r in ctx.runs:
                if r["name"] == rep["config"]:
                    subprocess.call([ctx.B.sim] + r["args"] + ["--dir", bdir] + (["--replay", rep["task"], "-v"] if rep.get("task") else ["-v"])); return 1
            print("configuration %s is not part of this tier" % rep["config"]); return 2
        heavy = [r for r in ctx.runs if r["workers"] > 4]; light = [r for r in ctx.runs if r["workers"] <= 4]
        slots = threading.Semaphore(10)
        def go(r):
            for _ in range(r["workers"]): slots.acquire()
            try: one(ctx, r)
            finally:
                for _ in range(r["workers"]): slots.release()
            if a.v: print("%6.1fs rc=%s %s %s" % (r["wall"], r["rc"], r["name"], {k: r["json"][k] for k in ("cases", "executions", "states", "truncated", "max_choices", "counters")} if "json" in r else r["err"])); sys.stdout.flush()
        lk = threading.Lock()
        def go2(r):
            with lk:
                for _ in range(r["workers"]): slots.acquire()
            try: one(ctx, r)
            finally:
                for _ in range(r["workers"]): slots.release()
            if a.v: print("%6.1fs rc=%s %s %s" % (r["wall"], r["rc"], r["name"], {k: r["json"][k] for k in ("cases", "executions", "states", "truncated", "max_choices", "counters")} if "json" in r else r["err"])); sys.stdout.flush()
        with ThreadPoolExecutor(16) as ex: list(ex.map(go2, heavy + light))
        return report(a, ctx, tb, t0)
    finally:
        if not a.keep: shutil.rmtree(bdir, ignore_errors=True)

def kind_of(m):
    """groups messages: the last parts, without numbers and names of distributions and types"""
    return re.sub(r"[-0-9.e+]+|\([^)]*\)", "#", ":".join(m.split(": ")[-2:]))[:90] if m.count(": ") > 1 else re.sub(r"[-0-9.e+]+|\([^)]*\)", "#", m)[:90]
def norm(m): return re.sub(r"0x[0-9a-f]+|-?\d+", "#", m)

def report(a, ctx, tb, t0):
    known = [k for k in load_known() if k["property"] == a.prop]
    viol, errors, seen_known = [], [], {}
    tot = dict(states=0, transitions=0, executions=0, cases=0, traces=0, checks=0)
    trunc = []; samples = []; unconf = 0; maxb = 0
    rdir = os.path.join(VERIF, "evidence", "replay"); os.makedirs(rdir, exist_ok=True)
    for r in ctx.runs:
        j = r.get("json")
        if j:
            for k in ("states", "transitions", "executions", "cases", "traces"): tot[k] += j[k]
            tot["checks"] += j["counters"][0]; unconf += j["unconfirmed"]
            if j["truncated"] or j["overflow"]: trunc.append(r["name"])
            if len(samples) < 12: samples.append("%s: cases=%d executions=%d distinct traces=%d states=%d choice points<=%d" % (r["name"], j["cases"], j["executions"], j["traces"], j["states"], j["max_choices"]))
            if j["executions"] == 0: errors.append("%s explored nothing" % r["name"])
            for v in j["violations"]:
                if not v["confirmed"]: continue
                if "INTERNAL" in v["msg"]: errors.append(r["name"] + ": " + v["msg"]); continue
                viol.append((r["name"], v["msg"], v["task"]))
        else:
            if r.get("hang"): viol.append((r["name"], "the program did not terminate", None))
            elif r["rc"] is not None and r["rc"] < 0: viol.append((r["name"], "killed by signal %d before exploration" % -r["rc"], None))
            elif "failure before exploration" in r["err"] or "never reached sim_begin" in r["err"]: viol.append((r["name"], r["err"].strip()[-300:], None))
            else: errors.append("%s: rc=%s %s" % (r["name"], r["rc"], r["err"]))
    new = []
    for n, m, t in viol:
        for k in known:
            if re.search(k["config"], n) and re.search(k["message"], m): seen_known.setdefault(k["what"], 0); seen_known[k["what"]] += 1; break
        else: new.append((n, m, t))
    for k in known:
        if k["what"] in seen_known: print("KNOWN-FINDING: property=%s %s" % (a.prop, k["what"]))
    seen = {}
    for x in new: seen.setdefault((x[0].split("/")[0], kind_of(x[1])), []).append(x)
    if len(seen) < len(new): print('  (%d violations, one of each kind shown)' % len(new))
    for i, (n, m, t) in enumerate([x[0] for x in seen.values()][:30]):
        f = os.path.join(rdir, "%s-%s.json" % (a.prop, hashlib.md5((n + m).encode()).hexdigest()[:10]))
        json.dump(dict(property=a.prop, tier=a.tier, config=n, task=t, message=m), open(f, "w"), indent=1)
        print("VIOLATION property=%s replay=%s" % (a.prop, f)); print("  %s: %s" % (n, m))
    import checks
    ev = dict(property=a.prop, tier=a.tier, seed=int(os.environ.get("VERIF_SEED", "1") or 1), level="model_checking",
              coverage=dict(states=tot["states"], transitions=tot["transitions"], traces_validated_against_impl=tot["executions"],
                            samples=samples or ["none"], exhaustive=not trunc and not errors,
                            explanation="Every trace is an execution of the real implementation compiled from the working tree; states are distinct happens-before fingerprints or harness states; %d configurations, %d cases, %d distinct traces, %d oracle comparisons; truncated configurations: %s" % (len(ctx.runs), tot["cases"], tot["traces"], tot["checks"], ", ".join(trunc) or "none")),
              assumptions=checks.ASSUME, wall_s=round(time.time() - t0, 1), violations=len(new))
    json.dump(ev, open(os.path.join(VERIF, "evidence", a.prop + ".json"), "w"), indent=1)
    print("%s %s: %d configurations, %d cases, %d executions, %d states, %d transitions, %d comparisons, %d truncated, %d unconfirmed, build %.1fs, total %.1fs" % (a.prop, a.tier, len(ctx.runs), tot["cases"], tot["executions"], tot["states"], tot["transitions"], tot["checks"], len(trunc), unconf, tb, time.time() - t0))
    for n in trunc: print("  truncated: " + n)
    for e in errors[:10]: print("ERROR: " + e)
    if new: return 1
    if errors: return 2
    return 0
