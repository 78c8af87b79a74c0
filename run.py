#!/usr/bin/env python3
"""Run one check: build the monitor binaries from /repo's working tree, run the workloads,
merge what the monitors observed, write evidence/<ID>.json, exit 0 (held), 1 (violated), 2 (no answer)."""
import concurrent.futures as cf
import hashlib, json, os, pty, signal, subprocess, sys, tempfile, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
HARNESS = os.path.join(HERE, "harness")
TARGET = os.environ.get("VERIF_TARGET", os.path.join(HERE, "harness", "target"))
try:
    SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
except ValueError:
    SEED = 1
# seeds are multiplied, and Miri's are of 32 bits
SEED %= 100003
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"
THOROUGH = TIER == "thorough"

# configuration name -> (features, release?)
CONFIGS = {
    "default": ([], False),
    "default-r": ([], True),
    "alloc": (["f-alloc"], False),
    "std": (["f-std"], False),
    "std-r": (["f-std"], True),
    "sc": (["f-sc"], False),
    "sc-r": (["f-sc"], True),
    "stdsc": (["f-std", "f-sc"], False),
    "stdsc-r": (["f-std", "f-sc"], True),
    "strip": (["f-strip"], False),
    "strip-r": (["f-strip"], True),
    "stdstrip": (["f-std", "f-strip"], False),
    "allfeat": (["f-std", "f-sc", "f-strip", "f-alloc"], False),
    "allfeat-r": (["f-std", "f-sc", "f-strip", "f-alloc"], True),
}
# VIOLATION only ever comes from an oracle; everything else that goes wrong is "no answer"
class NoAnswer(Exception):
    pass


def base_env():
    keep = ("PATH", "HOME", "USER", "CARGO_HOME", "RUSTUP_HOME", "TMPDIR", "LD_LIBRARY_PATH")
    e = {k: os.environ[k] for k in keep if k in os.environ}
    e.setdefault("PATH", "/usr/local/bin:/usr/bin:/bin")
    e.setdefault("HOME", "/root")
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    return e


def repo_hash():
    h = hashlib.sha256()
    for root, dirs, files in os.walk(os.path.join(REPO, "src")):
        dirs.sort()
        for f in sorted(files):
            p = os.path.join(root, f)
            h.update(p.encode() + b"\0")
            with open(p, "rb") as fh:
                h.update(fh.read())
    for f in ("Cargo.toml", "README.md"):
        p = os.path.join(REPO, f)
        if os.path.exists(p):
            with open(p, "rb") as fh:
                h.update(fh.read())
    return h.hexdigest()


def forget_colorz(tdir):
    """Make cargo rebuild colorz in this target directory if the sources are not those it was built from."""
    stamp = os.path.join(tdir, "colorz.stamp")
    now = repo_hash()
    old = open(stamp).read() if os.path.exists(stamp) else None
    if old != now:
        for root, dirs, _ in os.walk(tdir):
            if os.path.basename(root) == ".fingerprint":
                for d in list(dirs):
                    if d.startswith("colorz-"):
                        p = os.path.join(root, d)
                        for f in os.listdir(p):
                            os.unlink(os.path.join(p, f))
                        os.rmdir(p)
                dirs[:] = []
        os.makedirs(tdir, exist_ok=True)
        with open(stamp, "w") as f:
            f.write(now)


def cargo(args, cwd, env=None, timeout=840):
    e = base_env()
    e.update(env or {})
    return subprocess.run(["cargo"] + args, cwd=cwd, env=e, stdin=subprocess.DEVNULL,
                          stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True, errors="replace")


def build(cfg, bins):
    """Build the given monitor binaries for a configuration; returns {bin: path}."""
    feats, rel = CONFIGS[cfg]
    tdir = os.path.join(TARGET, cfg)
    forget_colorz(tdir)
    args = ["+stable", "build", "--offline", "--locked", "--target-dir", tdir]
    for b in bins:
        args += ["--bin", b]
    if rel:
        args.append("--release")
    if feats:
        args += ["--features", ",".join(feats)]
    r = cargo(args, HARNESS)
    if r.returncode != 0:
        raise NoAnswer(f"building {bins} for {cfg} failed:\n{r.stdout[-6000:]}")
    return {b: os.path.join(tdir, "release" if rel else "debug", b) for b in bins}


def build_all(pairs):
    """pairs: iterable of (cfg, bin); builds each configuration once, in parallel."""
    per = {}
    for cfg, b in pairs:
        per.setdefault(cfg, set()).add(b)
    out = {}
    with cf.ThreadPoolExecutor(4) as ex:
        futs = {c: ex.submit(build, c, sorted(bs)) for c, bs in per.items()}
        for c, f in futs.items():
            for b, p in f.result().items():
                out[(c, b)] = p
    return out


class Job:
    def __init__(self, cfg, bin, args=(), env=None, out="pipe", err="pipe", seed=None, timeout=None, heavy=True, label="", inp="null"):
        self.inp = inp
        self.cfg, self.bin, self.args, self.env = cfg, bin, list(args), dict(env or {})
        self.out, self.err = out, err
        self.seed = SEED if seed is None else seed
        self.timeout = timeout or (700 if not THOROUGH else 7200)
        self.heavy, self.label = heavy, label

    def describe(self):
        return dict(cfg=self.cfg, bin=self.bin, args=self.args, env=self.env, stdin=self.inp, stdout=self.out, stderr=self.err,
                    seed=self.seed, tier=TIER)


def sink(kind):
    """-> (fd to give the child, fd to drain or None)"""
    if kind == "tty":
        m, s = pty.openpty()
        return s, m
    if kind == "pipe":
        r, w = os.pipe()
        return w, r
    if kind == "file":
        f = tempfile.TemporaryFile()
        return os.dup(f.fileno()), None
    if kind == "null":
        return os.open("/dev/null", os.O_WRONLY), None
    raise ValueError(kind)


def drain(fd, buf, limit=200000):
    try:
        while True:
            d = os.read(fd, 65536)
            if not d:
                break
            if len(buf) < limit:
                buf.extend(d)
    except OSError:
        pass


def run_job(job, path):
    fd, outfile = tempfile.mkstemp(prefix="mon-", suffix=".json")
    os.close(fd)
    argv = [path, "--out", outfile, "--seed", str(job.seed)] + (["--thorough"] if THOROUGH else []) + job.args
    env = base_env()
    env.pop("CARGO_TERM_COLOR", None)
    env.pop("CARGO_NET_OFFLINE", None)
    env.update(job.env)
    so, sm = sink(job.out)
    se, em = sink(job.err)
    si, im = sink("tty") if job.inp == "tty" else (os.open("/dev/null", os.O_RDONLY), None)
    bufs = [bytearray(), bytearray()]
    t0 = time.time()
    res = None
    try:
        p = subprocess.Popen(argv, env=env, cwd="/tmp", stdin=si, stdout=so, stderr=se, start_new_session=True)
        os.close(so)
        os.close(se)
        os.close(si)
        ths = []
        for m, b in ((sm, bufs[0]), (em, bufs[1])):
            if m is not None:
                t = threading.Thread(target=drain, args=(m, b), daemon=True)
                t.start()
                ths.append(t)
        try:
            rc = p.wait(timeout=job.timeout)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
            rc = None
        for t in ths:
            t.join(5)
        for m in (sm, em, im):
            if m is not None:
                os.close(m)
        try:
            res = json.load(open(outfile))
        except Exception:
            res = None
        return dict(job=job, rc=rc, res=res, wall=time.time() - t0, stdout=bytes(bufs[0]), stderr=bytes(bufs[1]))
    finally:
        os.unlink(outfile)


class Report:
    """Accumulates what all jobs of a check observed."""

    def __init__(self, pid):
        self.pid = pid
        self.evals = self.distinct = 0
        self.rules, self.samples, self.counters, self.runs = [], [], {}, []
        self.viol, self.noanswer = [], []
        self.notes = []  # (job, name -> fact)
        self.exhaustive = None

    def add_rule(self, r):
        if r and r not in self.rules:
            self.rules.append(r)

    def add(self, out):
        job, rc, res = out["job"], out["rc"], out["res"]
        where = f"{job.bin} [{job.cfg}{' ' + job.label if job.label else ''}]"
        if res is not None:
            if res.get("notes"):
                self.notes.append((job, res["notes"]))
            self.evals += res["evaluations"]
            self.distinct += res["distinct"]
            self.add_rule(res["rule"])
            for s in res["samples"][: 3 if len(self.samples) > 4 else 6]:
                if len(self.samples) < 16:
                    self.samples.append(f"{where}: {s}")
            for k, v in res["counters"].items():
                self.counters[k] = self.counters.get(k, 0) + v
            if len(self.runs) < 60:
                self.runs.append(dict(run=where, config=res["config"], evaluations=res["evaluations"],
                                      distinct=res["distinct"], wall_s=round(out["wall"], 2)))
            for v in res["violations"]:
                self.viol.append((f"{where}: {v}", job.describe()))
            if res["violations"]:
                return
            for h in res["harness"]:
                self.noanswer.append(f"{where}: harness error: {h}")
            for h in res["inconclusive"]:
                self.noanswer.append(f"{where}: inconclusive: {h}")
        err = out["stderr"][-1500:].decode("utf8", "replace")
        if rc is None:
            self.noanswer.append(f"{where}: timed out after {job.timeout}s; stderr: {err}")
        elif rc < 0 and rc != -signal.SIGKILL:
            self.viol.append((f"{where}: the program died of signal {-rc}; stderr: {err}", job.describe()))
        elif res is None:
            self.noanswer.append(f"{where}: exit code {rc} without a result; stderr: {err}")
        elif rc != 0 and not res["harness"] and not res["inconclusive"]:
            self.noanswer.append(f"{where}: exit code {rc}, nothing was judged; stderr: {err}")


def run_jobs(rep, jobs, stop_early=True):
    paths = build_all((j.cfg, j.bin) for j in jobs)
    rep.counters["processes run"] = rep.counters.get("processes run", 0) + len(jobs)
    heavy = [j for j in jobs if j.heavy]
    light = [j for j in jobs if not j.heavy]
    for j in heavy:
        rep.add(run_job(j, paths[(j.cfg, j.bin)]))
        if stop_early and rep.viol:
            return
    if light:
        with cf.ThreadPoolExecutor(8) as ex:
            for out in ex.map(lambda j: run_job(j, paths[(j.cfg, j.bin)]), light):
                rep.add(out)


MIRI = os.path.join(HERE, "miri")
MIRI_FEATS = {"default": [], "std": ["f-std"], "sc": ["f-sc"], "stdsc": ["f-std", "f-sc"], "strip": ["f-strip"]}


class MiriJob:
    def __init__(self, cfg, bin, seeds, args=(), env=None, out="pipe", err="pipe", timeout=None, flags="", label=""):
        self.cfg, self.bin, self.seeds, self.args, self.env = cfg, bin, seeds, list(args), dict(env or {})
        self.out, self.err, self.flags, self.label = out, err, flags, label
        self.timeout = timeout or (600 if not THOROUGH else 7200)


def run_miri(job, seeds=None):
    tdir = os.path.join(MIRI, "target", job.cfg)
    a, b = seeds or job.seeds
    flags = f"{job.flags} -Zmiri-many-seeds={a}..{b} " + " ".join(f"-Zmiri-env-set={k}={v}" for k, v in job.env.items())
    argv = ["cargo", "+nightly", "miri", "run", "--offline", "--locked", "--target-dir", tdir, "--bin", job.bin, "-q"]
    if MIRI_FEATS[job.cfg]:
        argv += ["--features", ",".join(MIRI_FEATS[job.cfg])]
    e = base_env()
    e["MIRIFLAGS"] = flags
    so, sm = sink(job.out)
    se, em = sink(job.err)
    bufs = [bytearray(), bytearray()]
    p = subprocess.Popen(argv + ["--"] + job.args, cwd=MIRI, env=e, stdin=subprocess.DEVNULL, stdout=so, stderr=se, start_new_session=True)
    os.close(so)
    os.close(se)
    ths = []
    for m, buf in ((sm, bufs[0]), (em, bufs[1])):
        t = threading.Thread(target=drain, args=(m, buf, 20_000_000), daemon=True)
        t.start()
        ths.append(t)
    try:
        rc = p.wait(timeout=job.timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.wait()
        rc = None
    for t in ths:
        t.join(5)
    os.close(sm)
    os.close(em)
    return rc, bufs[0].decode("utf8", "replace").replace("\r", ""), bufs[1].decode("utf8", "replace").replace("\r", "")


def miri_jobs(rep, jobs, rule):
    """Run workloads under Miri. Violation: a wrong result the workload printed, a data race or
    other undefined behavior, or a panic. Anything else Miri stops for is no answer."""
    rep.add_rule(rule)
    for cfg in sorted({j.cfg for j in jobs}):
        forget_colorz(os.path.join(MIRI, "target", cfg))
    # the first job of each configuration builds; then all cores are used by the seeds of one job
    for j in jobs:
        t0 = time.time()
        where = f"miri {j.bin} [{j.cfg}{' ' + j.label if j.label else ''}]"
        rc, out, err = run_miri(j)
        text = out + "\n" + err
        desc = dict(miri=True, cfg=j.cfg, bin=j.bin, args=j.args, env=j.env, seeds=j.seeds, flags=j.flags, stdout=j.out, stderr=j.err)
        n = 0
        sigs = set()
        for line in out.splitlines():
            f = line.split()
            if len(f) >= 3 and f[0] == "EV" and f[-1].isdigit():
                k = "miri: " + " ".join(f[1:-1])
                rep.counters[k] = rep.counters.get(k, 0) + int(f[-1])
                n += 1
            elif len(f) == 2 and f[0] == "SIG":
                sigs.add(f[1])
        runs = j.seeds[1] - j.seeds[0]
        rep.evals += n
        rep.distinct += len(sigs)
        rep.counters["miri executions"] = rep.counters.get("miri executions", 0) + runs
        if len(rep.runs) < 60:
            rep.runs.append(dict(run=where, seeds=list(j.seeds), observations=n, distinct=len(sigs), wall_s=round(time.time() - t0, 2)))
        if len(rep.samples) < 16:
            rep.samples.append(f"{where}: " + "; ".join(out.splitlines()[-3:]))
        bad = [l for l in text.splitlines() if l.startswith("BAD ")]
        ub = "Undefined Behavior" in text
        panics = [l for l in text.splitlines() if "panicked at" in l]
        if bad or ub or any("src/bin/" not in l and "src/lib.rs" not in l.replace("/repo/src", "") for l in panics):
            what = "; ".join(bad[:3])
            if not bad:
                i = text.find("Undefined Behavior") if ub else text.find("panicked at")
                what = text[max(0, i - 7): i + 900]
            fail = [l.split()[-1] for l in text.splitlines() if "FAILING SEED" in l.upper()]
            run1 = ""
            if fail and fail[0].isdigit():
                s = int(fail[0])
                _, o1, e1 = run_miri(j, (s, s + 1))
                rl = [l for l in o1.splitlines() if l.startswith("RUN ")]
                run1 = f"seed {s}, during: {rl[-1] if rl else '?'}; "
            rep.viol.append((f"{where}: {run1}{what}", desc))
            return
        if rc is None:
            rep.noanswer.append(f"{where}: timed out after {j.timeout}s")
        elif rc != 0:
            rep.noanswer.append(f"{where}: exit code {rc}: {err[-2500:]}")
        elif n == 0:
            rep.noanswer.append(f"{where}: observed nothing")


def known_findings(pid):
    """lines: `finding: property=<id> <text>`; a violation is known if it contains the text."""
    out = []
    p = os.path.join(HERE, "KNOWN_FINDINGS.txt")
    for line in open(p) if os.path.exists(p) else []:
        pre = f"finding: property={pid} "
        if line.startswith(pre):
            out.append(line[len(pre):].strip())
    return out


def finish(rep, level, assumptions, t0):
    known = known_findings(rep.pid)
    for k in known:
        print(f"KNOWN-FINDING: property={rep.pid} {k}")
    new = [(v, d) for v, d in rep.viol if not any(k in v for k in known)]
    if not rep.samples:
        rep.samples = ["(none)"]
    cov = dict(evaluations=rep.evals, distinct_nontrivial=rep.distinct, rule=" | ".join(rep.rules) or "none",
               samples=rep.samples, observed=rep.counters, runs=rep.runs)
    if rep.exhaustive is not None:
        cov["exhaustive"] = rep.exhaustive
    ev = dict(property=rep.pid, tier=TIER, seed=SEED, level=level, coverage=cov, assumptions=assumptions,
              wall_s=round(time.time() - t0, 2), violations=len(new))
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", rep.pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    if new:
        os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
        rp = os.path.join(HERE, "replays", f"{rep.pid}.json")
        with open(rp, "w") as f:
            json.dump([dict(what=v, job=d) for v, d in new], f, indent=1)
        for v, _ in new[:3]:
            print("violated:", v[:2000])
        print(f"VIOLATION property={rep.pid} replay={rp}")
        return 1
    if rep.noanswer:
        for n in rep.noanswer[:5]:
            print("no answer:", n)
        return 2
    print(f"{rep.pid}: held; {rep.evals} evaluations, {rep.distinct} distinct non-trivial, {time.time() - t0:.1f}s")
    return 0


def main(argv):
    from checks import CHECKS
    if len(argv) == 3 and argv[1] == "--replay":
        for e in json.load(open(argv[2])):
            d = e["job"]
            if d.get("miri"):
                j = MiriJob(d["cfg"], d["bin"], d["seeds"], d["args"], d["env"], d["stdout"], d["stderr"], flags=d["flags"])
                forget_colorz(os.path.join(MIRI, "target", j.cfg))
                print(*run_miri(j))
                continue
            if not d or "bin" not in d:
                print("replay by running the check:", e["what"])
                continue
            j = Job(d["cfg"], d["bin"], d["args"], d["env"], d["stdout"], d["stderr"], d["seed"], inp=d["stdin"])
            o = run_job(j, build_all([(j.cfg, j.bin)])[(j.cfg, j.bin)])
            print(json.dumps(o["res"], indent=1))
        return 0
    pid = argv[1].upper()
    t0 = time.time()
    rep = Report(pid)
    c = CHECKS[pid]
    try:
        c["run"](rep)
    except NoAnswer as e:
        rep.noanswer.append(str(e))
    except subprocess.TimeoutExpired as e:
        rep.noanswer.append(f"timed out: {e}")
    return finish(rep, c.get("level", "exploration"), c.get("assumptions", []), t0)


if __name__ == "__main__":
    sys.modules["run"] = sys.modules["__main__"]
    sys.exit(main(sys.argv))
