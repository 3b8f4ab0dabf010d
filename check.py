#!/usr/bin/env python3
"""Runs the check of one property:  python3 check.py C01

Model-based verification with TLA+/TLC (see DESIGN.md):
 1. design runs : TLC explores the property's specification exhaustively
 2. generation  : TLC enumerates scenarios / behaviours of the specification
 3. conformance : a Go driver runs the scenarios on the real code (built from
                  /repo's working tree) and records what it observes
 4. judgement   : TLC replays the recorded observations in the specification

exit 0: held on everything explored; exit 1: VIOLATION line(s);
exit 2: the check itself failed (no verdict).
"""
import concurrent.futures as cf, json, os, re, shutil, signal, subprocess, sys, tempfile, time, hashlib

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")   # other than /repo only in experiments
TLAJAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"
try:
    SEED = int(os.environ.get("VERIF_SEED", "1"))
except ValueError:
    SEED = 1
NCPU = os.cpu_count() or 4
EVID = os.path.join(VERIF, "evidence") if REPO == "/repo" else tempfile.mkdtemp(prefix="verif-evidence-")

sys.path.insert(0, VERIF)
import registry  # noqa: E402


class CheckError(Exception):
    pass


def goenv():
    e = dict(os.environ)
    e.setdefault("HOME", "/root")
    e["PATH"] = "/usr/local/bin:/usr/bin:/bin:" + e.get("PATH", "")
    e.update(GOPATH="/root/go", GOMODCACHE="/root/go/pkg/mod", GOCACHE="/root/.cache/go-build",
             GOTOOLCHAIN="local", GOFLAGS="-mod=mod", GOPROXY="off", GOSUMDB="off", GOWORK="off")
    return e


class Ctx:
    def __init__(self, pid, scratch):
        self.pid, self.scratch = pid, scratch
        self.states = self.transitions = 0
        self.runs = []          # design runs
        self.traces = 0         # scenarios judged
        self.events = 0         # observation lines judged
        self.samples = []
        self.bad = []           # (observation dicts) rejected
        self.notes = {}
        self.n = 0

    def path(self, *a):
        return os.path.join(self.scratch, *a)


def run(cmd, timeout, **kw):
    try:
        return subprocess.run(cmd, timeout=timeout, stdout=subprocess.PIPE, stderr=subprocess.PIPE, **kw)
    except subprocess.TimeoutExpired as e:
        raise CheckError("timeout after %ss: %s" % (timeout, " ".join(map(str, cmd))[:300])) from e


def go_build(ctx, pkg, out, extra=(), cwd=None, modfile=None):
    """Builds a harness package against /repo's working tree."""
    cwd = cwd or os.path.join(VERIF, "harness")
    if modfile is None:
        modfile = ctx.path("gomod", "go.mod")
        if not os.path.exists(modfile):
            os.makedirs(ctx.path("gomod"), exist_ok=True)
            with open(os.path.join(VERIF, "harness", "go.mod")) as f, open(modfile, "w") as g:
                g.write(f.read().replace("=> /repo", "=> " + REPO))
            shutil.copy(os.path.join(REPO, "go.sum"), ctx.path("gomod", "go.sum"))
    r = run(["go", "build", "-modfile=" + modfile, "-o", out, *extra, pkg], 600, cwd=cwd, env=goenv())
    if r.returncode != 0:
        raise CheckError("go build %s failed:\n%s" % (pkg, r.stderr.decode(errors="replace")[-3000:]))
    return out


TLC_STATS = re.compile(r"(\d+) states generated, (\d+) distinct states found")


def tlc(ctx, module, cfg, env=None, workers=1, timeout=800, extra=(), heap="3g", check=True):
    ctx.n += 1
    k = hashlib.md5(("%s%s%s" % (module, cfg, json.dumps(env or {}, sort_keys=True))).encode()).hexdigest()[:10]
    d = ctx.path("tlc-%s-%s" % (module, k))
    os.makedirs(d, exist_ok=True)
    for f in os.listdir(os.path.join(VERIF, "spec")):
        if f.endswith((".tla", ".cfg")):
            os.symlink(os.path.join(VERIF, "spec", f), os.path.join(d, f))
    e = dict(os.environ)
    e.update(env or {})
    cmd = ["java", "-Djava.io.tmpdir=" + d, "-XX:+UseParallelGC" if workers > 1 else "-XX:+UseSerialGC", "-Xmx" + heap, "-Xss64m",
           "-cp", TLAJAR, "tlc2.TLC", "-noGenerateSpecTE", "-metadir", os.path.join(d, "meta"),
           "-workers", str(workers), "-config", cfg, *extra, module + ".tla"]
    r = run(cmd, timeout, cwd=d, env=e)
    out = r.stdout.decode(errors="replace") + r.stderr.decode(errors="replace")
    m = TLC_STATS.findall(out)
    if m:
        ctx.transitions += int(m[-1][0])
        ctx.states += int(m[-1][1])
    if check and ("Error:" in out or r.returncode != 0):
        raise CheckError("TLC failed on %s/%s (rc=%d):\n%s" % (module, cfg, r.returncode, out[-4000:]))
    return out, r.returncode, (int(m[-1][1]) if m else 0)


def design(ctx, module, cfg, **kw):
    t = time.time()
    out, rc, st = tlc(ctx, module, cfg, **kw)
    if "No error has been found" not in out and "-simulate" not in kw.get("extra", ()):
        raise CheckError("TLC did not complete %s/%s:\n%s" % (module, cfg, out[-3000:]))
    ctx.runs.append(dict(module=module, config=cfg, distinct_states=st, wall_s=round(time.time() - t, 1)))
    return out


def generate(ctx, module, cfg, name="scn.ndjson", env=None, **kw):
    """TLC writes scenarios (one JSON object per line) to IOEnv.OUT."""
    out = ctx.path(name)
    e = dict(env or {})
    e["OUT"] = out
    e.setdefault("TIER", TIER)
    tlc(ctx, module, cfg, env=e, **kw)
    if not os.path.exists(out):
        raise CheckError("generator %s wrote nothing" % module)
    return out


def run_driver(cmd, timeout, env):
    """Like run, but a driver that does not end is asked for its goroutines."""
    p = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, env=env)
    hang = False
    try:
        _, err = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        hang = True
        p.send_signal(signal.SIGQUIT)
        try:
            _, err = p.communicate(timeout=20)
        except subprocess.TimeoutExpired:
            p.kill()
            _, err = p.communicate()
    return p.returncode, err.decode(errors="replace"), hang


def drive(ctx, binary, args, out="obs.ndjson", timeout=450 if TIER == "quick" else 700, crash_ok=True, env=None):
    """Runs a driver. A Go panic or fatal error of the code under test, which the
    driver could not recover from (e.g. in a worker goroutine), is recorded as
    an observation of the scenario it had announced; so is a call into the code
    under test that does not return (drivers take well under a minute)."""
    obs = ctx.path(out)
    e = goenv()
    e.update(env or {})
    e["VERIF_SEED"], e["VERIF_TIER"] = str(SEED), TIER
    rc, err, hang = run_driver([binary, "-out", obs, "-seed", str(SEED), "-tier", TIER, *args], timeout, e)
    lines = []
    if os.path.exists(obs):
        for ln in open(obs, errors="replace"):
            try:
                lines.append(json.loads(ln))
            except ValueError:
                pass
    if rc != 0 or hang:
        crash = re.search(r"^(panic: .*|fatal error: .*)$", err, re.M)
        if hang:
            crash = re.search(r"^(SIGQUIT: quit.*)$", err, re.M)
        if crash and "/barnex/bruteray/" in err and crash_ok:
            last = next((o for o in reversed(lines) if o.get("ev") == "begin"), {})
            lines.append(dict(ev="crash", what="does not return" if hang else crash.group(1)[:300], scn=last.get("scn", {}),
                              stack=err[-1500:]))
        else:
            raise CheckError("driver %s failed (rc=%d%s):\n%s" % (binary, rc, ", timeout" if hang else "", err[-3000:]))
    return lines


def judge(ctx, module, cfg, obs, shards=None, keep_groups=False, timeout=800, heap="3g", env=None):
    """TLC judges observation lines. The trace module prints
    <<"VERDICT", number of lines, sequence of rejected line numbers>>."""
    obs = [o for o in obs if o.get("ev") != "begin"]
    crashes = [o for o in obs if o.get("ev") == "crash"]
    obs = [o for o in obs if o.get("ev") != "crash"]
    ctx.bad += crashes
    if not obs and not crashes:
        raise CheckError("no observations")
    groups, cur = [], []
    for o in obs:
        if keep_groups and o.get("ev") != "reset":
            cur.append(o)
            continue
        if cur:
            groups.append(cur)
        cur = [o]
    if cur:
        groups.append(cur)
    shards = shards or max(1, min(NCPU, len(groups)))
    parts = [[] for _ in range(shards)]
    load = [0] * shards
    for g in sorted(groups, key=lambda g: -sum(o.get("_w", 1) for o in g)):
        i = load.index(min(load))
        parts[i].append(g)
        load[i] += sum(o.get("_w", 1) for o in g)
    head = {id(o): g[0] for g in groups for o in g} if keep_groups else {}
    parts = [[o for g in p for o in g] for p in parts if p]

    def one(i):
        part, unfit = list(parts[i]), []
        for attempt in range(5):
            f = ctx.path("trace-%s-%d-%d-%d.ndjson" % (module, ctx.n, i, attempt))
            with open(f, "w") as h:
                for o in part:
                    h.write(json.dumps({k: v for k, v in o.items() if not k.startswith("_")}) + "\n")
            e = dict(env or {})
            e["TRACE"] = f
            e.setdefault("TIER", TIER)
            out, rc, st = tlc(ctx, module, cfg, env=e, timeout=timeout, heap=heap, check=False)
            m = re.search(r'<<\s*"VERDICT",\s*(\d+),\s*<<(.*?)>>\s*>>', out, re.S)
            os.remove(f)
            if m and int(m.group(1)) == len(part) and rc == 0:
                break
            # An observation on which the specification has no value (numbers
            # beyond TLC's integers) is not one of its behaviours.
            at = re.findall(r"^(?:/\\ )?l = (\d+)$", out, re.M)
            if not at or not re.search(r"Overflow when computing", out) or attempt == 4:
                if unfit and at:
                    return unfit
                raise CheckError("no verdict from %s (rc=%d):\n%s" % (module, rc, out[-3000:]))
            o = part[int(at[-1]) - 1]
            unfit.append(dict(o, scenario=head[id(o)]) if id(o) in head and head[id(o)] is not o else o)
            if keep_groups:
                part = [x for x in part if head[id(x)] is not head[id(o)]]
            else:
                part = [x for x in part if x is not o]
            if not part:
                return unfit
        k = re.search(r'<<\s*"JUDGED",\s*(\d+)\s*>>', out)
        if k and int(k.group(1)):
            ctx.notes["decisions_compared"] = ctx.notes.get("decisions_compared", 0) + int(k.group(1))
        rej = [part[int(x) - 1] for x in re.findall(r"\d+", m.group(2))]
        return unfit + [dict(o, scenario=head[id(o)]) if id(o) in head and head[id(o)] is not o else o for o in rej]

    with cf.ThreadPoolExecutor(max_workers=NCPU) as ex:
        for b in ex.map(one, range(len(parts))):
            ctx.bad += b
    ctx.traces += len(groups)
    ctx.events += len(obs)
    if obs:
        for o in (obs[0], obs[len(obs) // 2]):
            s = json.dumps(o)
            ctx.samples.append(json.loads(s) if len(s) < 1500 else s[:1500])


def known_findings(pid):
    f = os.path.join(VERIF, "known-findings.jsonl")
    out = []
    if os.path.exists(f):
        for ln in open(f):
            if ln.strip():
                k = json.loads(ln)
                if k.get("property") == pid and k.get("status") == "known":
                    out.append(k)
    return out


def matches(obs, pat):
    return all(obs.get(k) == v for k, v in pat.items())


def main():
    pid = sys.argv[1]
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix="verif-%s-" % pid)
    ctx = Ctx(pid, scratch)
    rc, viol = 0, 0
    try:
        fn = registry.CHECKS[pid]
        fn(sys.modules[__name__], ctx)
        kf = known_findings(pid)
        rest = []
        seen = set()
        for b in ctx.bad:
            for i, k in enumerate(kf):
                if matches(b, k["match"]):
                    if i not in seen:
                        seen.add(i)
                        print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
                    break
            else:
                rest.append(b)
        viol = len(rest)
        for i, b in enumerate(rest[:5]):
            d = os.path.join(EVID, "replay")
            os.makedirs(d, exist_ok=True)
            p = os.path.join(d, "%s-%d.json" % (pid, i))
            with open(p, "w") as f:
                json.dump(dict(property=pid, seed=SEED, tier=TIER, observation=b,
                               rerun="VERIF_SEED=%d VERIF_TIER=%s python3 /verif/check.py %s" % (SEED, TIER, pid)), f, indent=1)
            print("rejected by the specification: %s" % json.dumps(b)[:600])
            print("VIOLATION property=%s replay=%s" % (pid, p))
        rc = 1 if rest else 0
        ev = dict(property=pid, tier=TIER, seed=SEED, level="model_checking",
                  coverage=dict(states=ctx.states, transitions=ctx.transitions,
                                traces_validated_against_impl=ctx.traces, observations=ctx.events,
                                samples=ctx.samples[:6] or ["none"], design_runs=ctx.runs, **ctx.notes),
                  assumptions=registry.ASSUMPTIONS.get(pid, []),
                  wall_s=round(time.time() - t0, 2), violations=viol)
        os.makedirs(EVID, exist_ok=True)
        with open(os.path.join(EVID, pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        print("%s %s: %s; %d states, %d traces, %d observations, %.1fs" % (
            pid, TIER, "VIOLATED" if rc else "held", ctx.states, ctx.traces, ctx.events, time.time() - t0))
    except CheckError as e:
        print("CHECK ERROR (no verdict) %s: %s" % (pid, e), file=sys.stderr)
        rc = 2
    finally:
        if os.environ.get("VERIF_KEEP") != "1":
            shutil.rmtree(scratch, ignore_errors=True)
        else:
            print("kept", scratch)
    sys.exit(rc)


if __name__ == "__main__":
    main()
