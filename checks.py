"""Which workloads decide which property."""
import os
import random
import subprocess
import tempfile

from run import HERE, Job, MiriJob, NoAnswer, Report, SEED, THOROUGH, build_all, cargo, forget_colorz, miri_jobs, run_job, run_jobs

CHECKS = {}


def check(pid, **kw):
    def deco(f):
        CHECKS[pid] = dict(run=f, **kw)
        return f
    return deco


def configs(quick, thorough):
    return thorough if THOROUGH else quick


ORACLE = "the terminal model in harness/src/sgr.rs (ECMA-48/xterm SGR) is the meaning of the codes"


def simple(pid, bin, quick, thorough, **kw):
    def f(rep):
        jobs = [Job(c, bin) for c in configs(quick, thorough)]
        run_jobs(rep, jobs)
    CHECKS[pid] = dict(run=f, **kw)


# debug and release, and every feature on in one of them or the other
BOTH = ["default", "default-r", "stdsc-r", "allfeat-r"]
MANY = ["default", "default-r", "std-r", "stdsc", "sc-r", "strip", "strip-r", "allfeat-r"]

simple("C06", "c06", BOTH, MANY, assumptions=[ORACLE])
simple("C07", "c07", BOTH, MANY, assumptions=[ORACLE])
simple("C08", "c08", BOTH, MANY, assumptions=[ORACLE])
simple("C10", "c10", BOTH, MANY, assumptions=[ORACLE, "the name tables in harness/src/names.rs: CSS Color Module names and the published Xterm name/code list"])


@check("C09", assumptions=[ORACLE, "the decision model in harness/src/model.rs"])
def c09(rep):
    jobs = [Job(c, "c09") for c in configs(BOTH, MANY)]
    # stream support limited to each level, so that color kinds matter for the decision
    for lvl in "0123":
        jobs.append(Job("sc", "c09", ["decisions"], {"FORCE_COLOR": lvl}, heavy=False, label=f"level {lvl}"))
    run_jobs(rep, jobs)
simple("C11", "c11", BOTH, MANY, assumptions=["the reference parser in harness/src/bin/c11.rs is the documented grammar; 'default' and 'bright purple' are not specified"])
simple("C12", "c12", BOTH, MANY, assumptions=["the word list in harness/src/bin/c12.rs is the documented one"])
simple("C13", "c13", ["std", "stdsc-r", "stdstrip"], ["std", "std-r", "stdsc", "stdsc-r", "stdstrip", "allfeat-r"],
       assumptions=["variables are changed by the only thread of the process"])
simple("C14", "c14", BOTH, MANY, assumptions=["a bit mask over the 13 effects is the set model"])
simple("C15", "c15", BOTH, MANY, assumptions=["field-by-field model of a style"])
simple("C16", "c16", ["default", "stdsc-r", "strip-r"], MANY, assumptions=[ORACLE])


MIRI_RACE = "-Zmiri-disable-isolation -Zmiri-preemption-rate=0.1"
MEASURED = "stream support is measured by ioctl(TCGETS) and, with supports-color, by calling supports_color::on directly"
# variables that programs that look at the environment look at, and what they are set to (harness/src/spy.rs has the same)
NAMES_IN_USE = ("NO_COLOR ALWAYS_COLOR CLICOLOR_FORCE FORCE_COLOR CLICOLOR TERM COLORTERM CI IGNORE_IS_TERMINAL TERM_PROGRAM TERM_PROGRAM_VERSION LC_TERMINAL LANG LC_ALL LC_CTYPE TMUX STY "
                "WT_SESSION VTE_VERSION KONSOLE_VERSION COLORFGBG MSYSTEM ConEmuANSI ANSICON SSH_TTY SSH_CONNECTION INSIDE_EMACS EMACS GITHUB_ACTIONS TEAMCITY_VERSION BUILDKITE TRAVIS GITLAB_CI "
                "COLUMNS LINES COLOR COLORS NOCOLOR COLORZ COLORZ_MODE CARGO_TERM_COLOR DEBUG PAGER NO_UNDERLINE").split()
VALUES = ["", "0", "1", "2", "3", "true", "false", "never", "always", "auto", "dumb", "linux", "ansi", "vt100", "xterm", "xterm-color", "xterm-256color", "xterm-direct", "screen", "tmux-256color",
          "cygwin", "truecolor", "24bit", "C", "POSIX", "en_US.UTF-8", "Apple_Terminal", "iTerm.app", "vscode", "yes", "no", "off", "on", "80", "15;0"]
STREAM_KINDS = ["tty", "pipe", "file", "null"]


@check("C01", assumptions=[ORACLE, MEASURED, "the model in harness/src/model.rs is the documented precedence"])
def c01(rep):
    jobs = []
    envs = [{}, {"NO_COLOR": "1", "TERM": "xterm-256color"}, {"FORCE_COLOR": "1"}, {"TERM": "xterm", "CLICOLOR_FORCE": "1", "ALWAYS_COLOR": "1"}]
    cfgs = configs(["default", "std", "sc", "stdsc-r", "strip", "allfeat-r"],
                   ["default", "default-r", "alloc", "std", "std-r", "sc", "sc-r", "stdsc", "stdsc-r", "strip", "strip-r", "stdstrip", "allfeat", "allfeat-r"])
    seed = SEED * 1000
    for cfg in cfgs:
        for o in ("tty", "pipe"):
            for e in ("tty", "pipe"):
                for i, env in enumerate(envs):
                    seed += 1
                    jobs.append(Job(cfg, "c01", [], env, o, e, seed=seed, heavy=False, label=f"{o}/{e} env{i}"))
    run_jobs(rep, jobs)


@check("C02", assumptions=[ORACLE, MEASURED])
def c02(rep):
    rnd = random.Random(SEED)
    sc_envs = [
        {}, {"TERM": "dumb"}, {"TERM": "xterm"}, {"TERM": "xterm-256color"}, {"TERM": "vt100", "COLORTERM": "truecolor"},
        {"TERM": "xterm", "COLORTERM": "24bit"}, {"COLORTERM": "1"}, {"TERM": "xterm-direct"}, {"TERM_PROGRAM": "iTerm.app"},
        {"TERM_PROGRAM": "Apple_Terminal"}, {"CLICOLOR": "1"}, {"CLICOLOR": "0"}, {"CI": "1"},
        {"NO_COLOR": "1", "TERM": "xterm"}, {"NO_COLOR": "0", "TERM": "xterm-256color"}, {"NO_COLOR": "", "TERM": "xterm-256color"},
        {"FORCE_COLOR": "0", "TERM": "xterm"}, {"FORCE_COLOR": "1"}, {"FORCE_COLOR": "2"}, {"FORCE_COLOR": "3"}, {"FORCE_COLOR": ""},
        {"FORCE_COLOR": "false", "TERM": "xterm-256color"}, {"FORCE_COLOR": "true", "NO_COLOR": "1"},
        {"CLICOLOR_FORCE": "1"}, {"CLICOLOR_FORCE": "0", "TERM": "xterm"}, {"IGNORE_IS_TERMINAL": "1", "TERM": "xterm-256color"},
        {"IGNORE_IS_TERMINAL": "1", "COLORTERM": "truecolor"}, {"ALWAYS_COLOR": "1"},
    ]
    std_envs = [{}, {"NO_COLOR": "1", "TERM": "xterm"}, {"TERM": "dumb"}, {"FORCE_COLOR": "3", "CLICOLOR_FORCE": "1"}, {"CLICOLOR": "0", "CI": "1"}]
    keys = ["TERM", "COLORTERM", "FORCE_COLOR", "NO_COLOR", "CLICOLOR", "CLICOLOR_FORCE", "IGNORE_IS_TERMINAL", "CI", "TERM_PROGRAM"]
    vals = {"TERM": ["dumb", "xterm", "xterm-256color", "foo-direct", ""], "COLORTERM": ["truecolor", "24bit", "x"], "TERM_PROGRAM": ["iTerm.app", "Apple_Terminal"]}
    def mixed():
        return {k: rnd.choice(vals.get(k, ["", "0", "1", "2", "3"])) for k in keys if rnd.random() < 0.35}
    def stray():
        return {k: rnd.choice(VALUES) for k in NAMES_IN_USE if rnd.random() < 0.3}
    jobs, seed = [], SEED * 100000
    for cfg in configs(["std", "sc-r", "stdsc", "stdsc-r"], ["std", "std-r", "sc", "sc-r", "stdsc", "stdsc-r", "allfeat"]):
        envs = std_envs if cfg in ("std", "std-r") else sc_envs
        for o in STREAM_KINDS:
            for e in STREAM_KINDS:
                if cfg.startswith("std") and not cfg.startswith("stdsc"):
                    todo = envs
                elif "tty" in (o, e):
                    todo = envs if (o, e) in (("tty", "pipe"), ("pipe", "tty"), ("tty", "tty")) or THOROUGH else rnd.sample(envs, 6)
                else:
                    todo = envs if THOROUGH else rnd.sample(envs, 3)
                for env in todo + [mixed() for _ in range(40 if THOROUGH else 4)] + [stray() for _ in range(40 if THOROUGH else 3)]:
                    seed += 1
                    jobs.append(Job(cfg, "c02", [], env, o, e, seed=seed, heavy=False, inp=rnd.choice(["tty", "null"]),
                                    label=f"{o}/{e} {' '.join(f'{k}={v}' for k, v in env.items())}"))
    run_jobs(rep, jobs)
    if rep.viol:
        return
    # whatever else was asked of the environment gets every value
    asked = {}
    for job, notes in rep.notes:
        asked.setdefault(job.cfg, set()).update(n for n in notes["asked"].split() if "=" not in n and "\0" not in n)
    for cfg, names in asked.items():
        rep.counters[f"environment variables asked for while detecting [{cfg}]"] = len(names)
    more = []
    for cfg in configs(["std", "stdsc-r"], ["std-r", "stdsc-r", "sc-r"]):
        for n in sorted(asked[cfg] - set(keys if "sc" in cfg else ()))[:40]:
            for v in VALUES:
                o, e = rnd.choice([("tty", "pipe"), ("pipe", "tty"), ("tty", "tty")])
                seed += 1
                more.append(Job(cfg, "c02", [], {n: v, "TERM": "xterm-256color"} if n != "TERM" else {n: v}, o, e, seed=seed, heavy=False, label=f"{o}/{e} {n}={v}"))
    run_jobs(rep, more)


@check("C03", assumptions=[MEASURED, "detection asks isatty (std::io::IsTerminal does on this platform); the interposed isatty tells the truth"])
def c03(rep):
    jobs, seed = [], SEED * 1000
    for cfg in configs(["std", "std-r", "sc-r", "stdsc"], ["std", "std-r", "sc", "sc-r", "stdsc", "stdsc-r"]):
        for o in ("tty", "pipe"):
            for e in ("tty", "pipe"):
                envs = [{}] if cfg in ("std", "std-r") else [{"TERM": "xterm-256color"}, {"TERM": "xterm"}, {"COLORTERM": "truecolor"}]
                for env in envs:
                    seed += 1
                    jobs.append(Job(cfg, "c03", [], env, o, e, seed=seed, heavy=False, label=f"{o}/{e} {' '.join(env.values())}"))
    run_jobs(rep, jobs)
    overlapping = sum(v for k, v in rep.counters.items() if "threads detecting one stream at once" in k and k.split()[2] not in ("0", "1"))
    rep.counters["attempts with overlapping detections"] = overlapping
    if rep.viol:
        return
    # the same race in an interpreter that preempts anywhere and simulates weak memory
    n = 300 if not THOROUGH else 6000
    at = SEED * 10000
    mj = []
    for o, e in (("tty", "pipe"), ("pipe", "tty")):
        mj.append(MiriJob("std", "race", (at, at + n), [str(SEED)], {}, o, e, flags=MIRI_RACE, label=f"{o}/{e}"))
    for lvl in "123":
        mj.append(MiriJob("sc", "race", (at, at + n), [str(SEED)], {"FORCE_COLOR": lvl}, flags=MIRI_RACE, label=f"level {lvl}"))
    miri_jobs(rep, mj, "under Miri (random preemption, weak memory): three or four threads race for the first decisions, one seed per execution; distinct by order of answers")


@check("C20", assumptions=["Miri's data-race detector and weak-memory simulation; a message counts only if its reader saw the new value"])
def c20(rep):
    n = 24 if not THOROUGH else 1500
    at = SEED * 10000
    mj = []
    for i, cfg in enumerate(("default", "std", "sc", "stdsc", "strip")):
        for rate in (["0.01", "0.2"] if i == 0 or THOROUGH else ["0.05"]):
            mj.append(MiriJob(cfg, "mp", (at, at + n), flags=f"-Zmiri-preemption-rate={rate} -Zmiri-disable-isolation", label=f"preemption {rate}"))
    miri_jobs(rep, mj, "under Miri: a thread writes plain data and sets a setting; two threads poll for the new value through each getter and kind of "
                       "decision and read the data; 26 scenarios, and a baton passed back and forth; one execution per seed; distinct by how often each reader polled before it saw each value")


simple("C04", "c04", ["default", "default-r", "stdsc-r", "strip"], MANY, assumptions=[ORACLE, "the bare value's own formatting is the reference text"])


@check("C05", assumptions=[ORACLE, MEASURED, "the model in harness/src/model.rs is the documented precedence"])
def c05(rep):
    jobs = []
    for cfg in configs(["default", "default-r", "std-r", "stdsc", "strip"], MANY):
        for o, e in ([("tty", "pipe")] if not cfg.startswith("std") else [("tty", "pipe"), ("pipe", "tty")]):
            env = {"TERM": "xterm-256color"}
            jobs.append(Job(cfg, "c05", [], env, o, e, label=f"{o}/{e}"))
    run_jobs(rep, jobs)


simple("C17", "c17", ["default", "default-r", "stdsc-r", "strip"], MANY, level="fault_enumeration",
       assumptions=["the complete output is what a String sink receives (judged by C04, C06-C08)"])


@check("C21", assumptions=[ORACLE, MEASURED, "the model in harness/src/model.rs decides each layer"])
def c21(rep):
    jobs = []
    for cfg in configs(["default", "default-r", "std-r", "stdsc", "strip"], MANY):
        jobs.append(Job(cfg, "c21", [], {"TERM": "xterm-256color"}, "tty", "pipe", label="tty/pipe"))
        if cfg.startswith("std"):
            jobs.append(Job(cfg, "c21", [], {"TERM": "xterm"}, "pipe", "tty", label="pipe/tty", seed=SEED + 1))
    run_jobs(rep, jobs)


simple("C24", "c24", ["default", "stdsc-r", "allfeat-r"], MANY, assumptions=["two CSS names of one RGB value may or may not be equal"])
simple("C25", "c25", BOTH, MANY, assumptions=[ORACLE])


@check("C26", assumptions=["Linux on x86-64: seccomp reports every system call but those listed as harmless in harness/src/trap.rs"])
def c26(rep):
    jobs = []
    envs = [{}, {"TERM": "xterm-256color"}, {"NO_COLOR": "1", "TERM": "dumb"}, {"FORCE_COLOR": "3", "TERM": "linux"}]
    for i, cfg in enumerate(configs(["default", "default-r", "std", "stdsc", "sc-r", "strip-r", "allfeat-r"],
                                    ["default", "default-r", "alloc", "std", "std-r", "sc", "sc-r", "stdsc", "stdsc-r", "strip", "strip-r", "stdstrip", "allfeat", "allfeat-r"])):
        for k, (o, e) in enumerate([("tty", "pipe"), ("pipe", "tty"), ("tty", "tty"), ("file", "null")]):
            jobs.append(Job(cfg, "c26", [], envs[(i + k) % 4], o, e, heavy=False, seed=SEED * 100 + i * 4 + k, label=f"{o}/{e}"))
    run_jobs(rep, jobs)


@check("C27", assumptions=["the first answer in a fresh process is the reference; that it is right is for the other properties"])
def c27(rep):
    jobs = []
    for i, cfg in enumerate(configs(["default", "std-r", "stdsc", "strip-r"], ["default", "default-r", "alloc", "std", "std-r", "sc", "sc-r", "stdsc", "stdsc-r", "strip-r", "allfeat-r"])):
        o, e = [("tty", "pipe"), ("pipe", "tty")][i % 2]
        jobs.append(Job(cfg, "c27", [], {"TERM": "xterm-256color"}, o, e, seed=SEED * 100 + i, label=f"{o}/{e}"))
    run_jobs(rep, jobs)


@check("C23", assumptions=[ORACLE])
def c23(rep):
    envs = [{}, {"NO_COLOR": "1", "TERM": "dumb"}, {"FORCE_COLOR": "3", "TERM": "linux"}, {"CLICOLOR": "0", "CI": "1", "TERM": "xterm", "LC_ALL": "C"}]
    jobs = []
    cfgs = configs(["default", "default-r", "std-r", "sc", "stdsc-r", "strip", "strip-r", "allfeat-r"],
                   ["default", "default-r", "alloc", "std", "std-r", "sc", "sc-r", "stdsc", "stdsc-r", "strip", "strip-r", "stdstrip", "allfeat", "allfeat-r"])
    for cfg in cfgs:
        for i, (o, e) in enumerate([("tty", "pipe"), ("pipe", "tty"), ("file", "null"), ("tty", "tty")]):
            jobs.append(Job(cfg, "c23", [], envs[i], o, e, heavy=False, label=f"{o}/{e} {' '.join(f'{k}={v}' for k, v in envs[i].items())}"))
    run_jobs(rep, jobs)
    if rep.viol:
        return
    # every process must have written the same
    first = None
    for job, notes in rep.notes:
        t = notes["texts"].split()
        if first is None:
            first = (job, t)
        rep.counters["texts compared between processes"] = rep.counters.get("texts compared between processes", 0) + len(t)
        if len(t) != len(first[1]):
            rep.noanswer.append("processes wrote different numbers of texts")
            return
        for i, (a, b) in enumerate(zip(first[1], t)):
            if a != b:
                said = []
                for j in (first[0], job):
                    d = Job(j.cfg, "c23", ["dump", str(i)], j.env, j.out, j.err, j.seed)
                    o = run_job(d, build_all([(j.cfg, "c23")])[(j.cfg, "c23")])
                    said.append(f"with {j.cfg} {j.label}: {o['res']['samples']}")
                rep.viol.append(("; ".join(said), job.describe()))
                return


FREE = os.path.join(HERE, "freestanding")


def freestanding(feats, rel):
    """Build the program that has neither std nor an allocator. -> (path, None) or (None, why it cannot exist)"""
    tdir = os.path.join(FREE, "target", "-".join(feats) or "default")
    forget_colorz(tdir)
    args = ["+stable", "build", "--offline", "--locked", "--target-dir", tdir] + (["--release"] if rel else [])
    if feats:
        args += ["--features", ",".join(feats)]
    r = cargo(args, FREE)
    if r.returncode == 0:
        return os.path.join(tdir, "release" if rel else "debug", "freestanding"), None
    # the program defines its own panic handler and has no allocator: a crate that brings std or asks for a heap cannot be in it
    for sign in ("duplicate lang item", "no global memory allocator found", "found duplicate lang item `panic_impl`", "the lang item `panic_impl`"):
        if sign in r.stdout:
            return None, f"a program without std and allocator cannot use colorz [{feats or 'default features'}]: " + r.stdout[max(0, r.stdout.find(sign) - 60):][:700]
    raise NoAnswer(f"building freestanding {feats} failed:\n{r.stdout[-5000:]}")


@check("C18", assumptions=["allocations are those asked of the global allocator", "the freestanding program has core, colorz and the C library's write"])
def c18(rep):
    n = 600 if not THOROUGH else 20000
    todo = [([], False), ([], True), (["f-strip"], False), (["f-alloc"], False)]
    rep.add_rule("the same operations in a program without std and without an allocator, output compared byte for byte with the hosted program; with the alloc "
                 "feature, with an allocator that ends the program when asked")
    for feats, rel in todo:
        where = f"freestanding [{'+'.join(feats) or 'default'}{' release' if rel else ''}]"
        exe, why = freestanding(feats, rel)
        if why:
            rep.viol.append((f"{where}: {why}", {}))
            return
        p = subprocess.run([exe, str(SEED), str(n)], stdin=subprocess.DEVNULL, capture_output=True, timeout=600, env={})
        if p.returncode in (78, 79) or p.returncode < 0:
            rep.viol.append((f"{where}: ended with {p.returncode}: {p.stderr[-800:].decode('utf8', 'replace')}; last output {p.stdout[-300:]!r}", {}))
            return
        if p.returncode != 0:
            raise NoAnswer(f"{where}: exit code {p.returncode}")
        cfg = {"f-strip": "strip", "f-alloc": "alloc"}.get("".join(feats), "default-r" if rel else "default")
        with tempfile.TemporaryDirectory() as d:
            t = os.path.join(d, "t")
            path = build_all([(cfg, "c18")])[(cfg, "c18")]
            h = subprocess.run([path, "transcript", t, str(SEED), str(n)], stdin=subprocess.DEVNULL, capture_output=True, timeout=600, env={})
            hosted = open(t, "rb").read() if os.path.exists(t) else None
        if hosted is None:
            # the hosted program itself failed: the counting run below says why
            continue
        if hosted != p.stdout:
            i = next((i for i, (a, b) in enumerate(zip(hosted, p.stdout)) if a != b), min(len(hosted), len(p.stdout)))
            rep.viol.append((f"{where}: output differs from the same program with std at byte {i}: {p.stdout[max(0, i - 200):i + 100]!r}, with std {hosted[max(0, i - 200):i + 100]!r}", {}))
            return
        rep.counters[f"bytes written by the {where} program, all equal"] = len(hosted)
        lines = set(hosted.split(b"\n"))
        rep.evals += n * 13
        rep.distinct += len(lines)
        rep.runs.append(dict(run=where, operations=n * 13, distinct_lines=len(lines)))
    jobs = []
    for cfg in configs(["default", "alloc", "std-r", "sc", "stdsc-r", "strip"], ["default", "default-r", "alloc", "std", "std-r", "sc", "sc-r", "stdsc", "stdsc-r", "strip", "strip-r", "stdstrip", "allfeat-r"]):
        for o, e in ([("pipe", "pipe")] if cfg in ("default", "alloc", "strip") else [("tty", "pipe"), ("pipe", "tty")]):
            jobs.append(Job(cfg, "c18", [], {"TERM": "xterm-256color"}, o, e, label=f"{o}/{e}", heavy=False))
    run_jobs(rep, jobs)


@check("C19", assumptions=["operations are ordered by a shared counter read before and after each", MEASURED])
def c19(rep):
    jobs = []
    for i, cfg in enumerate(configs(["default", "default-r", "std-r", "stdsc-r", "strip-r"],
                                    ["default", "default-r", "std", "std-r", "sc-r", "stdsc", "stdsc-r", "strip", "strip-r", "stdstrip", "allfeat-r"])):
        std = cfg.startswith("std") or cfg.startswith("allfeat")
        for j, env in enumerate([{}, {"NO_COLOR": "1"}, {"CLICOLOR_FORCE": "1"}] if cfg == "std-r" or std and THOROUGH else [{"FORCE_COLOR": "1"}] if std else [{}]):
            jobs.append(Job(cfg, "c19", [], env, "tty", "pipe", seed=SEED * 100 + i * 10 + j, label=" ".join(env)))
    run_jobs(rep, jobs)
    if rep.viol:
        return
    n = 250 if not THOROUGH else 8000
    at = SEED * 20000
    miri_jobs(rep, [MiriJob(cfg, "hist", (at, at + n), [str(SEED)], flags=MIRI_RACE) for cfg in (("default", "std", "strip") if not THOROUGH else ("default", "std", "stdsc", "strip"))],
              "under Miri (random preemption, weak memory, spurious failures of weak exchanges): one history of two or three threads per execution, checked the same way; "
              "distinct by order of calls, returns and results")


@check("C22", assumptions=["overflow is observed in builds with overflow checks", "undefined behavior is what Miri detects"])
def c22(rep):
    jobs = []
    for i, cfg in enumerate(configs(["default", "default-r", "alloc", "std", "stdsc", "sc-r", "strip", "allfeat-r"], MANY)):
        o, e = [("tty", "pipe"), ("pipe", "tty")][i % 2]
        jobs.append(Job(cfg, "c22", [], {"TERM": "xterm-256color", "ODD\udcff": "\udcff=", "NAMELESS": ""}, o, e, seed=SEED * 100 + i, label=f"{o}/{e}"))
    run_jobs(rep, jobs)
    if rep.viol:
        return
    n = 8 if not THOROUGH else 800
    at = SEED * 30000
    miri_jobs(rep, [MiriJob(cfg, "ops", (at, at + n), [str(SEED), "14"], flags="") for cfg in (("default", "stdsc") if not THOROUGH else ("default", "std", "sc", "stdsc", "strip"))],
              "under Miri: two threads of random public operations per execution")
