#!/usr/bin/env python3
"""check.py PROPERTY: builds the driver of one property from /repo's working tree, runs it in shards under sanitizers,
collects what its monitors saw, writes evidence/<PROPERTY>.json. Exit 0: held; 1: VIOLATION printed; 2: no answer."""
import fnmatch, hashlib, json, os, re, subprocess, sys, tempfile, threading, time, shutil

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from checks import CHECKS, ASSUMPTIONS  # noqa: E402

REPO = os.environ.get("VERIF_REPO", "/repo")
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = "thorough" if os.environ.get("VERIF_TIER", "quick") == "thorough" else "quick"
SHARDS = int(os.environ.get("VERIF_SHARDS", "8"))
BUILD = os.environ.get("VERIF_BUILD", os.path.join(HERE, "build"))
EVIDENCE = os.environ.get("VERIF_EVIDENCE", os.path.join(HERE, "evidence"))

COMMON = ("-Wno-error -O1 -g1 -fno-omit-frame-pointer -D_GLIBCXX_ASSERTIONS -fsanitize=address -fsanitize=undefined "
          "-fno-sanitize=vptr -fno-sanitize=null -fno-sanitize=object-size -fno-sanitize-recover=all")
IGNORE = " -fsanitize-ignorelist=" + os.path.join(HERE, "harness/ignorelist.txt")
FLAGS = {
    "gcc": ("g++", COMMON),
    "clang": ("clang++", COMMON + IGNORE),
    "clang-O0": ("clang++", COMMON.replace("-O1", "-O0") + IGNORE),
    "tsan": ("clang++", "-Wno-error -O1 -g1 -fno-omit-frame-pointer -fsanitize=thread"),
}


def log(*a):
    print(*a, flush=True)


def fail(msg):
    log("ERROR: " + msg)
    sys.exit(2)


def run_build(conf, targets, full=False):
    name, flags = FLAGS[conf]
    d = os.path.join(BUILD, conf + ("-full" if full else ""))
    os.makedirs(d, exist_ok=True)
    env = dict(os.environ)
    cmd = ["cmake", "-S", REPO, "-B", d, "-G", "Ninja", "-DCMAKE_BUILD_TYPE=None", "-DCMAKE_CXX_COMPILER=" + name,
           "-DCMAKE_CXX_FLAGS=" + flags, "-DCMAKE_PROJECT_dots-cpp_INCLUDE=" + os.path.join(HERE, "harness/inject.cmake"),
           "-DPicoSHA2_INCLUDE_DIR=" + os.path.join(HERE, "harness/PicoSHA2"), "-DDOTS-CG=/opt/vp/dcg-venv/bin/dcg.py",
           "-DDOTS_BUILD_UNIT_TESTS=OFF", "-DDOTS_BUILD_EXAMPLES=OFF", "-DVERIF_FULL=" + ("ON" if full else "OFF")]
    out = os.path.join(d, "build.log")
    with open(out, "w") as f:
        if subprocess.call(cmd, stdout=f, stderr=subprocess.STDOUT, env=env) != 0:
            return None, out
        try:
            if subprocess.call(["ninja", "-C", d] + targets, stdout=f, stderr=subprocess.STDOUT, env=env, timeout=800) != 0:
                return None, out
        except subprocess.TimeoutExpired:
            return None, out
    return d, out


SAN_ENV = {
    "ASAN_OPTIONS": "abort_on_error=0:exitcode=66:detect_leaks=%d:detect_stack_use_after_return=0:max_allocation_size_mb=3000:allocator_release_to_os_interval_ms=-1:quarantine_size_mb=64:handle_abort=1:strict_init_order=0:check_initialization_order=0:malloc_context_size=14",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1",
    "LSAN_OPTIONS": "exitcode=67",
    "TSAN_OPTIONS": "halt_on_error=1:exitcode=66:second_deadlock_stack=1",
}

FRAME = re.compile(r"^\s*#\d+ 0x[0-9a-f]+ in (.+?) (/\S+?)(?::\d+)?(?::\d+)?\s*$")


def strip_name(fn):
    # drop template arguments and parameter lists
    prev = None
    while prev != fn:
        prev = fn
        fn = re.sub(r"<[^<>]*>", "", fn)
    prev = None
    while prev != fn:
        prev = fn
        fn = re.sub(r"\([^()]*\)", "", fn)
    fn = fn.replace(" const", "").strip()
    fn = fn.split(" ")[-1]
    return fn


def crash_key(err):
    """kind and innermost frames of the library: stable under unrelated edits."""
    kind = None
    m = re.search(r"ERROR: (AddressSanitizer|LeakSanitizer|ThreadSanitizer): ([\w-]+)", err) or re.search(r"WARNING: (ThreadSanitizer): ([\w -]+?) \(", err)
    if m:
        kind = m.group(2).replace(" ", "-")
        if kind == "detected" and "memory leaks" in err:
            kind = "leak"
    m2 = re.search(r"runtime error: ([^\n]*)", err)
    if m2 and (not m or err.find("runtime error:") < m.start()):
        kind = "ub:" + re.sub(r"0x[0-9a-f]+|-?[0-9.][0-9.e+-]*", "N", m2.group(1))[:60].strip().replace(" ", "-")
    if kind is None:
        m = re.search(r"(terminate called after throwing[^\n]*)", err)
        if m:
            kind = "terminate"
        elif "Assertion" in err or "__glibcxx_assert" in err:
            kind = "assertion"
        else:
            kind = "abnormal-exit"
    frames = []
    for line in err.splitlines():
        m = FRAME.match(line)
        if m and (m.group(2).startswith(REPO + "/lib") or m.group(2).startswith(REPO + "/bin")):
            f = strip_name(m.group(1))
            if f not in frames:
                frames.append(f)
            if len(frames) == 2:
                break
    return "crash:" + kind + (":" + "<".join(frames) if frames else "")


class Shard(threading.Thread):
    def __init__(self, n, exe, prop, a, b, tmp, budget, leaks):
        super().__init__()
        self.n, self.exe, self.prop, self.a, self.b, self.tmp, self.budget, self.leaks = n, exe, prop, a, b, tmp, budget, leaks
        self.viol, self.stats, self.error, self.crashes, self.lsan_broken = [], [], None, 0, False

    def once(self, a, b, budget):
        status = os.path.join(self.tmp, "status%d" % self.n)
        out = os.path.join(self.tmp, "out%d" % self.n)
        err = os.path.join(self.tmp, "err%d" % self.n)
        work = os.path.join(self.tmp, "work%d" % self.n)
        os.makedirs(work, exist_ok=True)
        env = dict(os.environ)
        for k, v in SAN_ENV.items():
            env[k] = v % (1 if self.leaks else 0) if "%d" in v else v
        env["VERIF_WORK"] = work
        cmd = [self.exe, "--prop", self.prop, "--seed", str(SEED), "--from", str(a), "--to", str(b), "--tier", TIER, "--budget", str(budget), "--status", status]
        with open(out, "w") as fo, open(err, "w") as fe:
            try:
                rc = subprocess.call(cmd, stdout=fo, stderr=fe, env=env, cwd=work, timeout=780 if TIER == "quick" else 7200)
            except subprocess.TimeoutExpired:
                rc = "timeout"
        text = open(out, errors="replace").read()
        errtext = open(err, errors="replace").read()[-200000:]
        case, phase = a, ""
        try:
            st = open(status, errors="replace").read().split("\t", 1)
            case, phase = int(st[0]), st[1].strip()
        except Exception:
            pass
        return rc, text, errtext, case, phase, cmd

    def run(self):
        try:
            self.go()
        except Exception as e:  # noqa
            self.error = "shard %d: %r" % (self.n, e)

    def go(self):
        a = self.a
        while a < self.b:
            rc, text, err, case, phase, cmd = self.once(a, self.b, self.budget)
            for line in text.splitlines():
                if line.startswith("VIOL\t"):
                    _, key, c, detail = line.split("\t", 3)
                    self.viol.append((key, int(c), detail, ""))
                elif line.startswith("STATS\t"):
                    self.stats.append(json.loads(line[6:]))
            if rc == 0 and any(line.startswith("STATS\t") for line in text.splitlines()):
                return
            if rc == "timeout":
                self.error = "shard %d: out of time at case %d (%s)" % (self.n, case, phase)
                return
            if rc == 2:
                self.error = "shard %d: driver error: %s" % (self.n, err[-500:])
                return
            if "LeakSanitizer has encountered a fatal error" in err or ("LeakSanitizer" in err and "ptrace" in err):
                self.lsan_broken = True
                if any(line.startswith("STATS\t") for line in text.splitlines()):
                    return
                self.leaks = False
                continue
            if rc == 77:
                rc2, text2, err2, case2, phase2, cmd2 = self.once(case, case + 1, self.budget * 3)
                if rc2 == 77:
                    self.viol.append(("hang:" + re.sub(r"[^A-Za-z_-].*", "", phase2), case, "no progress within the case's time budget, twice: " + phase2, ""))
                elif rc2 not in (0,):
                    for line in text2.splitlines():
                        if line.startswith("VIOL\t"):
                            _, key, c, detail = line.split("\t", 3)
                            self.viol.append((key, int(c), detail, ""))
                    if "ERROR: " in err2 or "runtime error" in err2:
                        self.viol.append((crash_key(err2), case, phase2, err2))
            else:
                if "STATS\t" in text and rc == 67 or "LeakSanitizer: detected memory leaks" in err:
                    self.viol.append((crash_key(err), case, "leak at exit of cases %d..%d" % (a, self.b), err))
                    if "STATS\t" in text:
                        return
                else:
                    self.viol.append((crash_key(err), case, phase, err))
            self.crashes += 1
            if self.crashes >= 4:
                return
            a = case + 1


def load_findings(prop):
    res = []
    p = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"finding: property=(\S+) key=(\S+) :: (.*)", line.strip())
            if m and m.group(1) == prop:
                res.append((m.group(2), m.group(3)))
    return res


def main():
    prop = sys.argv[1]
    cfg = CHECKS[prop]
    t0 = time.time()
    os.makedirs(EVIDENCE, exist_ok=True)
    before = subprocess.run(["git", "-C", REPO, "status", "--porcelain"], capture_output=True, text=True).stdout
    conf = cfg.get("build", "gcc")
    targets = cfg["driver"] if isinstance(cfg["driver"], list) else [cfg["driver"]]
    d, out = run_build(conf, targets)
    if d is None:
        text = open(out).read()
        if "undefined reference" in text or "CMake Error" in text:
            d, out = run_build(conf, targets, full=True)
        if d is None:
            print("\n".join(l for l in open(out).read().splitlines() if "error" in l.lower() or "FAILED" in l)[-4000:])
            fail("the driver could not be built from %s (log: %s)" % (REPO, out))
    t1 = time.time()
    log("%s: built %s with %s in %.1f s" % (prop, " ".join(targets), conf, t1 - t0))

    cases = int(os.environ.get("VERIF_CASES", cfg["cases"][TIER]))
    tmp = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    try:
        nshards = max(1, min(cfg.get("shards", SHARDS), SHARDS) // len(targets))
        shards = []
        for exe in (os.path.join(d, "out", t) for t in targets):
            for i in range(nshards):
                a, b = cases * i // nshards, cases * (i + 1) // nshards
                if b > a:
                    shards.append(Shard(len(shards), exe, prop, a, b, tmp, cfg.get("budget", 60), cfg.get("leaks", True)))
        for s in shards:
            s.start()
        for s in shards:
            s.join()
        viol, counters, maxima, distinct, samples, errors = [], {}, {}, {}, [], []
        lsan_broken = any(s.lsan_broken for s in shards)
        for s in shards:
            viol += [v + (s.exe,) for v in s.viol]
            if s.error:
                errors.append(s.error)
            for st in s.stats:
                for k, v in st["counters"].items():
                    counters[k] = counters.get(k, 0) + v
                for k, v in st["max"].items():
                    maxima[k] = max(maxima.get(k, 0), v)
                for k, v in st["distinct"].items():
                    e = distinct.setdefault(k, [set(), 0])
                    e[0].update(v[1:])
                    e[1] = max(e[1], v[0])
                samples += st["samples"]
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    t2 = time.time()

    findings = load_findings(prop)
    known, unknown = {}, {}
    for key, case, detail, err, exe in viol:
        hit = next((f for f in findings if fnmatch.fnmatchcase(key, f[0])), None)
        (known if hit else unknown).setdefault(key, []).append((case, detail, err, hit, exe))
    dcount = {k: max(len(v[0]), v[1]) for k, v in distinct.items()}
    ev = {
        "property": prop, "tier": TIER, "seed": SEED, "level": "exploration",
        "coverage": {
            "evaluations": counters.get(cfg.get("evaluations", "cases"), 0),
            "distinct_nontrivial": dcount.get(cfg["distinct"], 0),
            "rule": cfg["rule"],
            "samples": samples[:8],
            "observed": dict(sorted(counters.items())),
            "observed_maxima": dict(sorted(maxima.items())),
            "observed_distinct": dict(sorted(dcount.items())),
            "sanitizers": FLAGS[conf][1], "compiler": FLAGS[conf][0],
            "leak_detection": bool(cfg.get("leaks", True)) and not lsan_broken,
            "build_s": round(t1 - t0, 1), "run_s": round(t2 - t1, 1),
        },
        "assumptions": ASSUMPTIONS + cfg.get("assumptions", []),
        "wall_s": round(t2 - t0, 1),
        "violations": sum(len(v) for v in unknown.values()),
    }
    with open(os.path.join(EVIDENCE, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)

    for key, hits in known.items():
        log("KNOWN-FINDING: property=%s key=%s %s (%d times)" % (prop, key, hits[0][3][1], len(hits)))
    rc = 0
    for i, (key, hits) in enumerate(sorted(unknown.items())):
        case, detail, err, _, exe = hits[0]
        path = os.path.join(EVIDENCE, "replay-%s-%s.txt" % (prop, hashlib.sha1(key.encode()).hexdigest()[:8]))
        with open(path, "w") as f:
            f.write("property %s violated: %s\nseed %d, case %d (%d reports of this kind)\n\n%s\n\nreplay: VERIF_SEED=%d; build as check.py does, then\n  %s --prop %s --seed %d --from %d --to %d --tier %s\n\n%s\n"
                    % (prop, key, SEED, case, len(hits), detail, SEED, exe, prop, SEED, case, case + 1, TIER, err[:30000]))
        log("  %s: case %d: %s" % (key, case, detail[:600]))
        log("VIOLATION property=%s replay=%s" % (prop, path))
        rc = 1
    log("%s: %d cases, %d oracle checks, %d distinct; run %.1f s" % (prop, counters.get("cases", 0), counters.get("oracle_checks", 0), dcount.get(cfg["distinct"], 0), t2 - t1))
    after = subprocess.run(["git", "-C", REPO, "status", "--porcelain"], capture_output=True, text=True).stdout
    if before != after:
        log("warning: /repo's status changed during the check")
    if rc == 0:
        if errors:
            fail("; ".join(errors))
        for k, n in cfg.get("require", {}).items():
            seen = counters.get(k, dcount.get(k, maxima.get(k, 0)))
            # the counts depend a little on the load of the machine
            least = n * 0.4 * min(1, cases / cfg["cases"]["quick"])
            if seen < least:
                fail("too little was observed: %s = %d, at least %d expected" % (k, seen, least))
    sys.exit(rc)


if __name__ == "__main__":
    main()
