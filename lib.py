"""Shared by the checks: building from /repo's working tree, running harness
shards under watch, violations, known findings and evidence."""
import fcntl, hashlib, json, os, resource, shutil, signal, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VH_REPO", "/repo")
BUILD = os.path.join(HERE, "build")
REPLAYS = os.path.join(HERE, "replays")
JOBS = min(8, os.cpu_count() or 8)
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"
T0 = time.time()

ASAN = "-O1 -g1 -fno-omit-frame-pointer -fsanitize=address,undefined -fno-sanitize-recover=all -D_GLIBCXX_ASSERTIONS -w"
TSAN = "-O1 -g1 -fno-omit-frame-pointer -fsanitize=thread -w"
PLAIN = "-O2 -g1 -DNDEBUG -w"   # as a release build: assertions off
VARIANTS = {
    "asan": (ASAN, ["vh"], {"VH_SLOW": "-O0"}),
    "oom": (ASAN + " -DVH_OOM", ["vh"], {"VH_SLOW": "-O0"}),   # operator new can fail on demand
    "tsan": (TSAN, ["vh"], {}),
    "plain": (PLAIN, ["vh"], {}),
    "debug": ("-O0 -g1 -w", ["vh"], {}),      # as a debug build: no tail calls
    "cli": (ASAN + " -fsanitize-ignorelist=" + os.path.join(HERE, "harness", "ignore.txt"), ["vh", "htmlext"], {"VH_SLOW": "-O0", "VH_HTMLEXT": "ON"}),
}
ENV = dict(os.environ)
for k in list(ENV):
    if k.startswith(("ASAN_", "UBSAN_", "TSAN_", "LSAN_", "LD_")):
        del ENV[k]
ENV.update({
    "LC_ALL": "C.UTF-8", "TERM": "dumb",
    "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=77:hard_rss_limit_mb=3200:detect_stack_use_after_return=1:strict_string_checks=1:detect_invalid_pointer_pairs=0:allocator_may_return_null=0",
    "UBSAN_OPTIONS": "print_stacktrace=1:exitcode=77",
    "TSAN_OPTIONS": "exitcode=66:halt_on_error=1:second_deadlock_stack=1:hard_rss_limit_mb=6000",
})


class CheckError(Exception):
    pass


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def sh(cmd, what, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)
    if p.returncode != 0:
        raise CheckError("%s failed (%d):\n%s" % (what, p.returncode, p.stdout[-4000:]))
    return p.stdout


class Lock:
    def __init__(self, name):
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(os.path.join(BUILD, name + ".lock"), "w")

    def __enter__(self):
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def build(variant):
    """Builds the harness with /repo's current sources; returns its directory."""
    flags, targets, extra = VARIANTS[variant]
    d = os.path.join(BUILD, variant)
    env = dict(ENV, CC="clang", CXX="clang++")
    with Lock(variant):
        want = json.dumps([flags, extra, REPO, HERE])
        stamp = os.path.join(d, "vh.stamp")
        if not os.path.exists(stamp) or open(stamp).read() != want:
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(d)
        sh(["cmake", "-S", os.path.join(HERE, "harness"), "-B", d, "-G", "Ninja", "-DCMAKE_BUILD_TYPE=None",
            "-DVH_REPO=" + REPO, "-DVH_FLAGS=" + flags] + ["-D%s=%s" % kv for kv in extra.items()],
           "configuring the %s build" % variant, env=env)
        with open(stamp, "w") as f:
            f.write(want)
        sh(["ninja", "-C", d, "-j", str(JOBS)] + targets, "the %s build" % variant, env=env)
    return d


# ------------------------------------------------------------------ violations
def known_findings():
    """[(property, key, text)] of the findings that are recorded, not repaired."""
    out = []
    p = os.path.join(HERE, "known-findings.txt")
    for line in open(p, errors="replace") if os.path.exists(p) else []:
        if line.startswith("known: property="):
            pid, key, text = line[len("known: property="):].rstrip("\n").split(" ", 2)
            out.append((pid, key, text))
    return out


class Report:
    """What one check found: violations (with replays) and evidence."""

    def __init__(self, pid, level, rule, assumptions=()):
        self.pid, self.level, self.rule = pid, level, rule
        self.assumptions = list(assumptions)
        self.evaluations = 0
        self.distinct = set()
        self.counters = {}
        self.samples = []
        self.violations = []
        self.known_seen = []
        self.extra = {}

    def count(self, k, n=1):
        self.counters[k] = self.counters.get(k, 0) + n

    def maximum(self, k, n):
        self.counters[k] = max(self.counters.get(k, 0), n)

    def sample(self, s, most=6):
        if len(self.samples) < most:
            self.samples.append(s if len(s) < 600 else s[:600] + "...")

    def nontrivial(self, key):
        if isinstance(key, str):
            key = key.encode("utf-8", "surrogateescape")
        self.distinct.add(hashlib.blake2b(key, digest_size=8).digest())

    def violation(self, message, replay, key=None):
        """replay: a dict describing how to see it again. key: matched against known findings."""
        for pid, k, text in known_findings():
            if pid == self.pid and key is not None and k == key:
                if key not in self.known_seen:
                    self.known_seen.append(key)
                    print("KNOWN-FINDING: property=%s %s" % (pid, text), flush=True)
                return
        os.makedirs(REPLAYS, exist_ok=True)
        path = os.path.join(REPLAYS, "%s-%s-%d.json" % (self.pid, TIER, len(self.violations)))
        with open(path, "w") as f:
            json.dump({"property": self.pid, "message": message, "seed": SEED, "tier": TIER, **replay}, f, indent=1)
        self.violations.append(message)
        log("---- %s\n%s" % (self.pid, message[:3000]))
        print("VIOLATION property=%s replay=%s" % (self.pid, path), flush=True)

    def finish(self):
        cov = {"evaluations": self.evaluations, "distinct_nontrivial": len(self.distinct), "rule": self.rule,
               "samples": self.samples, "observed": dict(sorted(self.counters.items()))}
        cov.update(self.extra)
        ev = {"property": self.pid, "tier": TIER, "seed": SEED, "level": self.level, "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - T0, 2), "violations": len(self.violations)}
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        p = os.path.join(HERE, "evidence", self.pid + ".json")
        with open(p + ".tmp", "w") as f:
            json.dump(ev, f, indent=1)
        os.replace(p + ".tmp", p)
        log("%s: %d evaluations, %d distinct, %d violation(s), %.1f s" % (
            self.pid, self.evaluations, len(self.distinct), len(self.violations), time.time() - T0))
        return 1 if self.violations else 0


# ---------------------------------------------------------------- harness runs
def limits(variant):
    def f():
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        if variant == "plain":
            resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))
    return f


def proc_state(path):
    try:
        b = open(path, "rb").read(16)
        return int.from_bytes(b[:8], "little"), int.from_bytes(b[8:16], "little")
    except OSError:
        return 0, 0


class Shard:
    def __init__(self, cmd, variant, tmp, i):
        self.cmd, self.variant = cmd, variant
        self.out = os.path.join(tmp, "out%d" % i)
        self.state = os.path.join(tmp, "state%d" % i)
        self.p = subprocess.Popen(cmd + ["--state", self.state], stdout=open(self.out, "wb"), stderr=subprocess.STDOUT,
                                  stdin=subprocess.DEVNULL, env=ENV, preexec_fn=limits(variant), cwd=tmp)
        self.last = (0, time.time())
        self.hung = False

    def poll(self, stall):
        rc = self.p.poll()
        if rc is not None:
            return rc
        n = proc_state(self.state)[1]
        if n != self.last[0]:
            self.last = (n, time.time())
        elif time.time() - self.last[1] > stall:
            self.hung = True
            self.p.kill()
            self.p.wait()
        return self.p.poll()

    def text(self):
        return open(self.out, "rb").read().decode("utf-8", "replace")


def again(cmd, variant, idx, tmp, timeout):
    """One case alone: (outcome, text); outcome is 'ok', 'fail', 'crash', 'hang' or 'error'."""
    try:
        p = subprocess.run(cmd + ["--only", str(idx)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL,
                           env=ENV, preexec_fn=limits(variant), timeout=timeout, cwd=tmp)
    except subprocess.TimeoutExpired:
        return "hang", ""
    t = p.stdout.decode("utf-8", "replace")
    if p.returncode == 0:
        return "ok", t
    if p.returncode == 1 and "\nFAIL " in "\n" + t:
        return "fail", t
    if p.returncode == 2:
        return "error", t
    return ("killed" if p.returncode == -9 else "crash"), t


def run_vh(rep, variant, cases, seed=None, prop=None, time_cap=240, stall=90, wrap=(), label=None):
    """Runs the property's cases in JOBS shards of the given build and collects
    what they observed. True if nothing was violated."""
    prop = prop or rep.pid
    seed = SEED if seed is None else seed
    label = label or variant
    t = time.time()
    vh = os.path.join(build(variant), "vh")
    tb = time.time() - t
    tmp = tempfile.mkdtemp(prefix="vh-%s-" % rep.pid)
    t = time.time()
    try:
        base = list(wrap) + [vh, prop, "--seed", str(seed), "--cases", str(cases), "--time", str(time_cap),
                             "--corpus", os.path.join(HERE, "harness", "corpus")]
        shards = [Shard(base + ["--shard", "%d/%d" % (i, JOBS)], variant, tmp, i) for i in range(JOBS)]
        live = list(shards)
        while live:
            time.sleep(0.05)
            live = [s for s in live if s.poll(stall) is None]
        ok = True
        capped = False
        for i, s in enumerate(shards):
            rc, text = s.p.returncode, s.text()
            idx = proc_state(s.state)[0]
            replay = {"variant": variant, "shard": i, "case": idx, "command": s.cmd + ["--only", str(idx)],
                      "history": s.cmd, "build": "python3 run.py --build " + variant}
            if s.hung:
                kind, text2 = again(s.cmd, variant, idx, tmp, 120)
                if kind in ("hang", "fail", "crash"):
                    rep.violation("case %d does not terminate\n%s" % (idx, text2[-3000:]), dict(replay, outcome=kind))
                    ok = False
                elif kind == "ok":
                    rep.count("slow_cases_rerun")
                else:
                    raise CheckError("case %d of %s: %s\n%s" % (idx, label, kind, text2[-2000:]))
            elif rc == 0:
                for line in text.splitlines():
                    if line.startswith("DISTINCT"):
                        rep.distinct.update(line.split()[1:])
                    elif line.startswith("STATS "):
                        d = json.loads(line[6:])
                        rep.evaluations += d["evaluations"]
                        for k, v in d["counters"].items():
                            if k.startswith("max_") or k.startswith("most_") or k.startswith("longest_") or k.startswith("deepest_"):
                                rep.maximum(k, v)
                            else:
                                rep.count(k, v)
                        for x in d["samples"][:1]:
                            rep.sample(x)
                        capped |= d["capped"]
                        break
                else:
                    raise CheckError("no result from a %s shard:\n%s" % (label, text[-2000:]))
            elif rc == 2:
                raise CheckError("harness error (%s): %s" % (label, text[-2000:]))
            elif rc == 1 and "\nFAIL " in "\n" + text:
                rep.violation(text[text.rindex("FAIL "):][:6000], replay)
                ok = False
            else:
                kind, text2 = again(s.cmd, variant, idx, tmp, 120)
                if rc == -9 and kind in ("ok", "killed", "error"):
                    raise CheckError("a %s shard was killed in case %d (alone: %s)" % (label, idx, kind))
                rep.violation("case %d: crash or sanitizer report (exit %d; alone: %s)\n%s" % (idx, rc, kind, report(text)),
                              dict(replay, outcome=kind))
                ok = False
        rep.count("executions_" + label, sum(proc_state(s.state)[1] for s in shards))
        if capped:
            rep.count("stopped_by_time_cap_" + label)
        log("%s %s: build %.1f s, run %.1f s" % (rep.pid, label, tb, time.time() - t))
        return ok
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def report(text):
    for mark in ("ERROR: AddressSanitizer", "runtime error:", "WARNING: ThreadSanitizer", "terminate called", "Assertion", "AddressSanitizer:", "== ERROR", "Invalid "):
        i = text.find(mark)
        if i >= 0:
            return text[max(0, i - 200):i + 4500]
    return text[-3000:]
