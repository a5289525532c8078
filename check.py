#!/usr/bin/env python3
"""check.py ID: decide one property by running the code under test under monitors.

exit 0  held on everything that was observed
exit 1  violated; prints VIOLATION property=<id> replay=<path>
else    no answer (build failure, harness failure, resource trouble)

check.py --setup           build everything ahead of time
check.py --replay FILE     judge one recorded case again
"""
import fcntl, hashlib, itertools, json, os, random, re, resource, shutil, signal, subprocess, sys, time, traceback

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("WH_REPO", "/repo")
TARGET = os.path.join(VERIF, "target")
HARNESS = os.path.join(VERIF, "harness")
EVIDENCE = os.path.join(VERIF, "evidence")
REPLAYS = os.path.join(VERIF, "replays")
T0 = time.time()
CORES = max(4, min(8, os.cpu_count() or 8))

# properties decided by the generic worker streams (some with extras below)
LEVEL = "exploration"


class NoAnswer(Exception):
    pass


def log(*a):
    print("[%6.1f]" % (time.time() - T0), *a, flush=True)


STABLE, NIGHTLY = "stable-x86_64-unknown-linux-gnu", "nightly-x86_64-unknown-linux-gnu"


def env(**kw):
    e = dict(os.environ)
    e["RUSTUP_TOOLCHAIN"] = STABLE
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "/usr/bin:/bin")
    e["CARGO_TERM_COLOR"] = "never"
    e["RUST_BACKTRACE"] = "0"
    for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "CARGO_ENCODED_RUSTFLAGS", "CARGO_BUILD_TARGET"):
        e.pop(k, None)
    e["CARGO_NET_OFFLINE"] = "true"
    e["WH_REPO"] = REPO
    e.update(kw)
    return e


def cargo(args, cwd, what, timeout=800, **kw):
    os.makedirs(TARGET, exist_ok=True)
    lock = os.path.join(cwd, "Cargo.lock")
    with open(os.path.join(TARGET, ".wh-lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        before = open(lock, "rb").read() if os.path.exists(lock) else None
        try:
            p = subprocess.run(["cargo"] + args, cwd=cwd, env=env(**kw), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        finally:
            # leave lock files as they were, whatever cargo made of them
            after = open(lock, "rb").read() if os.path.exists(lock) else None
            if after != before:
                if before is None:
                    os.remove(lock)
                else:
                    open(lock, "wb").write(before)
    if p.returncode != 0:
        sys.stdout.write(p.stdout.decode(errors="replace")[-4000:])
        raise NoAnswer("building %s failed" % what)


def harness(profile):
    args = ["build", "--offline", "--target-dir", TARGET, "--bin", "wh"]
    args += ["--release"] if profile == "release" else ["--profile", profile]
    cargo(args, HARNESS, "the harness (%s)" % profile)
    return os.path.join(TARGET, profile, "wh")


def asan():
    t = os.path.join(TARGET, "asan")
    cargo(["build", "--offline", "--target-dir", t, "--bin", "wh", "--release", "--target", "x86_64-unknown-linux-gnu"], HARNESS,
          "the harness with AddressSanitizer", RUSTFLAGS="-Zsanitizer=address", RUSTUP_TOOLCHAIN=NIGHTLY)
    return os.path.join(t, "x86_64-unknown-linux-gnu", "release", "wh")


MIRI = {"MIRIFLAGS": "-Zmiri-disable-isolation", "RUSTUP_TOOLCHAIN": NIGHTLY}
BIG = "s390x-unknown-linux-gnu"


def miri_cmd(target):
    c = ["miri", "run", "--offline", "-q", "--target-dir", os.path.join(TARGET, "miri"), "--bin", "wh_miri"]
    return c + (["--target", target] if target else []) + ["--"]


def miri_build(target):
    # also builds the sysroot if there is none yet
    cargo(miri_cmd(target) + ["readers", "1", "0", "1"], HARNESS, "the Miri driver (%s)" % (target or "host"), **MIRI)


def miri_start(args, target=None):
    return subprocess.Popen(["cargo"] + miri_cmd(target) + [str(x) for x in args], cwd=HARNESS, env=env(**MIRI), stdout=subprocess.PIPE, stderr=subprocess.PIPE)


def miri_wait(p, what, timeout):
    """-> (stdout, undefined behaviour report or None)"""
    try:
        out, err = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        p.kill()
        p.communicate()
        raise NoAnswer("Miri (%s) did not end in time" % what)
    out, err = out.decode(errors="replace"), err.decode(errors="replace")
    if p.returncode != 0:
        m = re.search(r"error: (Undefined Behavior|unsupported operation|memory leaked|the evaluated program|abnormal termination)[^\n]*(\n.*)?", err, re.S)
        if m and m.group(1) == "Undefined Behavior":
            return out, m.group(0)[:1500]
        raise NoAnswer("Miri (%s) ended with %d: %s" % (what, p.returncode, err[-1500:]))
    if "summary" not in out:
        raise NoAnswer("Miri (%s) gave no summary" % what)
    return out, None


def cli():
    t = os.path.join(TARGET, "cli")
    cargo(["build", "--offline", "--target-dir", t, "--bin", "parser"], REPO, "the command-line tool")
    return os.path.join(t, "debug", "parser")


class Run:
    def __init__(self, prop):
        self.prop = prop
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        try:
            self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = 1
        self.seed_u = self.seed % (1 << 64)
        self.thorough = self.tier == "thorough"
        self.dir = os.path.join(VERIF, "scratch", "%s-%d" % (prop, os.getpid()))
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        os.makedirs(REPLAYS, exist_ok=True)
        os.makedirs(EVIDENCE, exist_ok=True)
        self.evals = 0
        self.distinct = 0
        self.samples = []
        self.cover = {}
        self.bad = []          # (message, replay path)
        self.known = []
        self.assumptions = []
        self.exhaustive = False
        self.level = LEVEL

    # -------------------------------------------------------------- reporting
    def violation(self, msg, stream, data_hex):
        h = hashlib.sha1((stream + data_hex).encode()).hexdigest()[:12]
        path = os.path.join(REPLAYS, "%s-%s" % (self.prop, h))
        with open(path, "w") as f:
            f.write("%s %s\n%s\n%s\n" % (self.prop, stream, data_hex, msg))
        self.bad.append((msg, path))

    def violation_text(self, msg, text):
        msg = msg.encode(errors="backslashreplace").decode()
        h = hashlib.sha1((msg + text).encode()).hexdigest()[:12]
        path = os.path.join(REPLAYS, "%s-%s.txt" % (self.prop, h))
        with open(path, "w") as f:
            f.write(msg + "\n" + text + "\n")
        self.bad.append((msg, path))

    def finish(self, rule):
        cov = {"evaluations": self.evals, "distinct_nontrivial": self.distinct, "rule": rule, "samples": self.samples[:12]}
        if self.exhaustive:
            cov["exhaustive"] = True
        cov.update(self.cover)
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level, "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - T0, 2), "violations": len(self.bad)}
        tmp = os.path.join(EVIDENCE, "%s.json.tmp" % self.prop)
        with open(tmp, "w") as f:
            json.dump(ev, f, indent=1)
        os.replace(tmp, os.path.join(EVIDENCE, "%s.json" % self.prop))
        for k in self.known:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, k))
        for msg, path in self.bad[:3]:
            print("violated:", msg[:600])
        shutil.rmtree(self.dir, ignore_errors=True)
        if self.bad:
            print("VIOLATION property=%s replay=%s" % (self.prop, self.bad[0][1]))
            return 1
        log("%s held: %d evaluations, %d distinct non-trivial" % (self.prop, self.evals, self.distinct))
        return 0

    # -------------------------------------------------------------- generic workers
    def workers(self, plan, cap):
        """plan: list of (binary, shard, of, nth, order, tag)"""
        ps = []
        for b, shard, of, nth, order, tag in plan:
            out = os.path.join(self.dir, tag)
            err = open(out + ".err", "wb")
            p = subprocess.Popen([b, "worker", self.prop, str(self.seed_u), self.tier, str(shard), str(of), str(nth), order, str(cap), out],
                                 stdout=err, stderr=err, env=env(), preexec_fn=None if tag.startswith("asan") else limits)
            ps.append({"p": p, "out": out, "bin": b, "cur": None, "since": time.time(), "cpu": 0.0, "tag": tag})
        stuck = []
        tick = os.sysconf("SC_CLK_TCK")
        while any(w["p"].poll() is None for w in ps):
            time.sleep(0.2)
            for w in ps:
                if w["p"].poll() is not None:
                    continue
                try:
                    cur = open(w["out"] + ".cur", "rb").read(16)
                    st = open("/proc/%d/stat" % w["p"].pid).read().rsplit(")", 1)[1].split()
                    cpu = (int(st[11]) + int(st[12])) / tick
                except (OSError, IndexError, ValueError):
                    continue
                if cur != w["cur"]:
                    w["cur"], w["since"], w["cpu"] = cur, time.time(), cpu
                elif cpu - w["cpu"] > 60:
                    w["p"].kill()
                    w["p"].wait()
                    stuck.append(w)
        tot = {"streams": {}, "counts": {}}
        capped = False
        ratio = 0.0
        for w in ps:
            rc = w["p"].returncode
            lines = []
            if os.path.exists(w["out"] + ".out"):
                for l in open(w["out"] + ".out"):
                    try:
                        lines.append(json.loads(l))
                    except ValueError:
                        pass
            done = [l for l in lines if l.get("done")]
            for l in lines:
                if "violation" in l:
                    self.violation("[%s] %s" % (w["tag"], l["violation"]), l["stream"], l["data"])
            if rc != 0 or not done:
                self.died(w, rc, w in stuck)
                continue
            d = done[0]
            self.evals += d["evals"]
            capped = capped or d["capped"]
            ratio = max(ratio, d["ratio"])
            for k, v in d["streams"].items():
                o = tot["streams"].setdefault(k, {"cases": 0, "evaluations": 0})
                o["cases"] += v[0]
                o["evaluations"] += v[1]
            for k, v in d["counts"].items():
                tot["counts"][k] = tot["counts"].get(k, 0) + v
            if not self.samples or len(self.samples) < 10:
                have = {s.get("stream") for s in self.samples if isinstance(s, dict)}
                self.samples += [s for s in d["samples"] if s["stream"] not in have]
            self.cover["literals_harvested_for_sizes"] = d["harvested"]
        n = subprocess.run([plan[0][0], "distinct"] + [w["out"] + ".hash" for w in ps], stdout=subprocess.PIPE, env=env())
        self.distinct += int(n.stdout or 0)
        self.cover["streams"] = tot["streams"]
        self.cover["observed"] = tot["counts"]
        self.cover["stopped_at_time_cap"] = capped
        if ratio:
            self.cover["max_heap_bytes_per_unit_of_input"] = round(ratio, 1)
        return ps

    def died(self, w, rc, stuck):
        """A worker ended abnormally: blame the case it was on only if that reproduces alone."""
        if rc == -signal.SIGKILL and not stuck:
            raise NoAnswer("worker %s was killed from outside" % w["tag"])
        if rc is not None and rc >= 0 and not stuck and "AddressSanitizer" not in open(w["out"] + ".err", errors="replace").read():
            sys.stdout.write(open(w["out"] + ".err", errors="replace").read()[-2000:])
            raise NoAnswer("worker %s ended with status %d" % (w["tag"], rc))
        cur = open(w["out"] + ".cur", "rb").read(16)
        if len(cur) < 16:
            raise NoAnswer("worker %s died before its first case" % w["tag"])
        s, i = int.from_bytes(cur[:8], "little"), int.from_bytes(cur[8:], "little")
        f = os.path.join(self.dir, "dead-%s" % w["tag"])
        subprocess.run([w["bin"], "gen", self.prop, str(self.seed_u), str(s), str(i), f], env=env(), check=True)
        kind, what = run_case(w["bin"], f)
        if self.prop == "C06" and kind == "crash" and not re.search(r"AddressSanitizer: (?!stack-overflow|out-of-memory|allocation-size)|unsafe precondition|signal (11|7|4):", what):
            raise NoAnswer("the process died, but not of undefined behaviour: " + what[-300:])
        stream, data = open(f).read().split("\n")[:2]
        stream = stream.split(" ", 1)[1]
        if kind == "crash":
            self.violation("[%s] the process died: %s" % (w["tag"], what), stream, data)
        elif kind == "bad":
            self.violation("[%s] %s" % (w["tag"], what), stream, data)
        elif kind == "slow" and stuck and self.prop in ("C04", "C05"):
            self.violation("[%s] no end within 60 s of processor time, twice" % w["tag"], stream, data)
        else:
            raise NoAnswer("worker %s ended with %s on stream %d case %d, which alone gives: %s %s" % (w["tag"], rc, s, i, kind, what))

    def generic(self, cap_quick=150, cap_thorough=600):
        chk = harness("checked")
        cap = cap_thorough if self.thorough else cap_quick
        if self.prop == "C06":
            # optimised with AddressSanitizer, and unsafe preconditions checked by the standard library
            a, n = asan(), CORES - 2
            plan = [(a, i, n, 1, "fwd", "asan%d" % i) for i in range(n)]
            plan += [(chk, i, 2, 3, "fwd", "checked%d" % i) for i in range(2)]
            return self.workers(plan, cap)
        rel = harness("release")
        if self.prop == "C14":
            # the same cases in two builds and in opposite order
            n = CORES // 2
            plan = [(chk, i, n, 1, "fwd", "checked%d" % i) for i in range(n)]
            plan += [(rel, i, n, 1, "rev", "release%d" % i) for i in range(n)]
            ps = self.workers(plan, cap)
            self.compare_builds(ps, n)
            return ps
        n = CORES - 2
        plan = [(chk, i, n, 1, "fwd", "checked%d" % i) for i in range(n)]
        plan += [(rel, i, 2, 4, "fwd", "release%d" % i) for i in range(2)]
        return self.workers(plan, cap)

    def compare_builds(self, ps, n):
        same = 0
        for i in range(n):
            a, b = [dict(l.split() for l in open(ps[k]["out"] + ".note") if len(l.split()) == 2) for k in (i, n + i)]
            for k in a:
                if k not in b:
                    continue
                same += 1
                if a[k] != b[k] and len(self.bad) < 3:
                    s, idx = k.split("/")
                    f = os.path.join(self.dir, "differs")
                    subprocess.run([ps[i]["bin"], "gen", self.prop, str(self.seed_u), s, idx, f], env=env(), check=True)
                    stream, data = open(f).read().split("\n")[:2]
                    self.violation("the result differs between two builds that processed other inputs before it", stream.split(" ", 1)[1], data)
        self.cover["results_compared_between_builds_and_histories"] = same


def limits():
    # an allocation storm must end in the worker, not in the machine
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def cpu_limit(sec, wide=False):
    def f():
        if not wide:
            limits()
        resource.setrlimit(resource.RLIMIT_CPU, (sec, sec + 5))
    return f


def run_case(binary, f):
    p = subprocess.Popen([binary, "judge", f], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env(), preexec_fn=cpu_limit(60, "asan" in binary))
    out = p.communicate()[0].decode(errors="replace")
    rc = p.returncode
    if rc == 0:
        return "held", out
    if rc == 1:
        return "bad", out.strip()[-600:]
    if rc in (-signal.SIGXCPU,):
        return "slow", "processor time limit"
    if rc == -signal.SIGKILL:
        return "killed", out[-300:]
    if rc < 0 or "AddressSanitizer" in out:
        m = re.search(r"ERROR: AddressSanitizer.*|unsafe precondition.*|memory allocation of.*|has overflowed its stack", out)
        return "crash", "signal %d: %s" % (-rc, m.group(0)[:300] if m else " ".join(out.split())[:300])
    return "error", out[-600:]


# ------------------------------------------------------------------ extras per property

def known_findings(prop):
    out = {}
    for l in open(os.path.join(VERIF, "known-findings.txt")):
        m = re.match(r"known: property=(\S+) probe=(\S+) (.*)", l.strip())
        if m and m.group(1) == prop:
            out[m.group(2)] = m.group(3)
    return out


def leb(n):
    o = b""
    while True:
        b = n & 0x7F
        n >>= 7
        o += bytes([b | (0x80 if n else 0)])
        if not n:
            return o


def one_function(code):
    body = leb(len(code)) + code
    sec = b"\x01" + body
    return b"\0asm\x01\0\0\0" + b"\x01\x04\x01\x60\0\0" + b"\x03\x02\x01\0" + b"\x0a" + leb(len(sec)) + sec


def probe_input(name):
    if name == "nesting-200000":
        return one_function(b"\0" + b"\x02\x40" * 200000 + b"\x0b" * 200001)
    if name == "nesting-100":
        return one_function(b"\0" + b"\x02\x40" * 100 + b"\x0b" * 101)
    if name == "locals-4294967295":
        return one_function(b"\x01" + leb(0xFFFFFFFF) + b"\x7f\x0b")
    raise NoAnswer("unknown probe " + name)


def probe(binary, path, argv):
    p = subprocess.Popen(argv, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env(), preexec_fn=cpu_limit(120))
    out = p.communicate()[0].decode(errors="replace")
    return p.returncode, " ".join(out.split())[-200:]


def c04(run):
    """Probes whose failure is a known finding (identified by the exact input), and the ordinary tool on ordinary depth."""
    rel = harness("release")
    tool = cli()
    known = known_findings("C04")
    for name in ("nesting-200000", "locals-4294967295"):
        f = os.path.join(run.dir, name)
        open(f, "wb").write(probe_input(name))
        rc, out = probe(rel, f, [rel, "probe", f, "8"])
        run.evals += 1
        run.distinct += 1
        run.cover.setdefault("probes", []).append({"probe": name, "status": rc, "output": out[:120]})
        if rc == 0:
            continue
        if rc == -signal.SIGKILL or rc == -signal.SIGXCPU or rc > 1:
            raise NoAnswer("probe %s ended with %d: %s" % (name, rc, out))
        if name in known:
            run.known.append("%s: %s" % (name, known[name]))
        else:
            run.violation("probe %s: status %d: %s" % (name, rc, out), "m", open(f, "rb").read().hex())
    # the shipped tool, unoptimised, on the default stack
    for name in ("nesting-100",):
        f = os.path.join(run.dir, name)
        open(f, "wb").write(probe_input(name))
        rc, out = probe(tool, f, [tool, f])
        run.evals += 1
        run.distinct += 1
        run.cover.setdefault("probes", []).append({"probe": "tool " + name, "status": rc, "output": out[:120]})
        if rc < 0 and rc != -signal.SIGKILL:
            run.violation("the tool died on %s: status %d: %s" % (name, rc, out), "m", open(f, "rb").read().hex())


def family_names(run, rel):
    names = []
    while True:
        p = subprocess.run([rel, "family", str(len(names)), "4", "0", os.path.join(run.dir, "fam")], stdout=subprocess.PIPE, env=env())
        if p.returncode == 9:
            return names
        if p.returncode != 0:
            raise NoAnswer("family %d" % len(names))
        names.append(p.stdout.decode().split("\n")[0])


# seconds of processor time for one instruction count; the largest on the unchanged tree takes under 5
WORK_CPU = 120


def c05(run):
    """Instruction counts over size series: doubling the input must not much more than double the work."""
    if run.bad:
        return
    rel = harness("release")
    if not shutil.which("valgrind"):
        raise NoAnswer("valgrind is not available")
    jobs = []
    top = 16000 if run.thorough else 8000
    names = family_names(run, rel)
    sizes = [top // 4, top // 2, top]
    for k in range(len(names)):
        for bad in (0, 1):
            for n in sizes:
                jobs.append((k, bad, n))
    jobs.sort(key=lambda j: j[2])
    ir = {}
    running = []
    endless = []

    def start(j):
        f = os.path.join(run.dir, "ir-%d-%d-%d" % j)
        subprocess.run([rel, "family", str(j[0]), str(j[2]), str(j[1]), f], stdout=subprocess.DEVNULL, env=env(), check=True)
        p = subprocess.Popen(["valgrind", "--tool=callgrind", "--callgrind-out-file=/dev/null", "--main-stacksize=67108864",
                              "--toggle-collect=wh_measured", rel, "measure", f],
                             stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env(),
                             preexec_fn=lambda: resource.setrlimit(resource.RLIMIT_CPU, (WORK_CPU, WORK_CPU)))
        return (j, p, f, os.path.getsize(f))

    def reap(x):
        j, p, f, size = x
        out = p.communicate()[0].decode(errors="replace")
        if p.returncode in (-signal.SIGXCPU, -signal.SIGKILL) or "SIGXCPU" in out:
            # only processor time counts, so a busy machine does not matter
            if resource.getrusage(resource.RUSAGE_CHILDREN).ru_utime - spent[0] < WORK_CPU * 0.8:
                raise NoAnswer("counting instructions of %s was ended from outside" % (j,))
            endless.append((j, size))
            return
        m = re.search(r"Collected : (\d+)", out)
        if p.returncode != 0 or not m or "outcome" not in out:
            raise NoAnswer("counting instructions of %s: %s" % (j, out[-600:]))
        ir[j] = (int(m.group(1)), size)
        os.remove(f)
    todo = list(jobs)
    spent = [resource.getrusage(resource.RUSAGE_CHILDREN).ru_utime]
    while todo or running:
        if endless:
            for x in running:
                x[1].kill()
                x[1].communicate()
            (k, bad, n), size = endless[0]
            run.violation_text("work out of proportion for family '%s'%s: more than %d s of processor time under the instruction counter for %d bytes" % (names[k], " (faulty)" if bad else "", WORK_CPU, size),
                               "family %d bad %d size %d" % (k, bad, n))
            return
        while todo and len(running) < CORES:
            running.append(start(todo.pop(0)))
        for x in list(running):
            if x[1].poll() is not None:
                reap(x)
                running.remove(x)
        time.sleep(0.02)
    table = {}
    for k, nm in enumerate(names):
        for bad in (0, 1):
            a, b, c = [ir[(k, bad, n)] for n in sizes]
            run.evals += 3
            run.distinct += 1
            key = nm + (" (faulty)" if bad else "")
            if c[1] - b[1] < 200:      # the family does not grow the input
                growth = None
            g1, g2 = c[0] - b[0], b[0] - a[0]
            s1, s2 = c[1] - b[1], b[1] - a[1]
            # work per added byte in the upper half against the lower half of the series
            growth = (g1 / max(s1, 1)) / max(g2 / max(s2, 1), 1e-9) if g2 > 0 and s2 > 0 else 1.0
            per = c[0] / max(c[1], 1)
            table[key] = {"bytes": [a[1], b[1], c[1]], "instructions": [a[0], b[0], c[0]], "growth": round(growth, 3), "instructions_per_byte": round(per, 1)}
            # linear: 1.0; quadratic: about 2.0. Small absolute work is noise.
            if g1 > 2_000_000 and growth > 1.6:
                run.violation_text("work grows faster than the input for family '%s': %s instructions for %s bytes" % (key, [a[0], b[0], c[0]], [a[1], b[1], c[1]]),
                                   "family %d bad %d sizes %s" % (k, bad, sizes))
    run.cover["work_series"] = len(table)
    run.cover["worst_growth"] = sorted(((v["growth"], k) for k, v in table.items()), reverse=True)[:5]
    run.cover["most_instructions_per_byte"] = sorted(((v["instructions_per_byte"], k) for k, v in table.items()), reverse=True)[:5]
    run.samples.append({"series": names[0], **table[names[0]]})


def miri_modules(run, jobs, seconds):
    """jobs: list of (args, target, label)"""
    ps = [(miri_start(a, t), l) for a, t, l in jobs]
    res = []
    err = None
    for p, l in ps:
        try:
            res.append((l,) + miri_wait(p, l, seconds + 200))
        except NoAnswer as e:
            err = e
    if err and not any(r[2] for r in res):
        raise err
    return res


def c06(run):
    if run.bad:
        return
    miri_build(None)
    miri_build(BIG)
    d = os.path.join(run.dir, "mini")
    os.makedirs(d)
    n = 6000 if run.thorough else 1200
    sec = 400 if run.thorough else 50
    rel = os.path.join(TARGET, "checked", "wh")
    subprocess.run([rel, "mini", str(run.seed_u), str(n), d], env=env(), check=True)
    k = CORES - 3
    jobs = [(["modules", d, i, k, n, 0, sec], None, "host %d" % i) for i in range(k)]
    jobs.append((["modules", d, run.seed % 7, 7, n, 0, sec], BIG, "big-endian"))
    jobs.append((["readers", run.seed_u, 100000, sec], None, "readers"))
    jobs.append((["threads", d, 100, 124 if not run.thorough else 190], None, "threads"))
    seen = {}
    for label, out, ub in miri_modules(run, jobs, sec):
        done = re.findall(r"^done (\d+)", out, re.M)
        m = re.search(r"^summary (\d+) (\d+)", out, re.M)
        execs = int(m.group(1)) if m else len(done)
        seen[label] = execs
        run.evals += execs
        run.distinct += len(done) if "host" in label else execs if label == "readers" else 0
        if ub:
            last = int(done[-1]) if done else -1
            arg = [a for a, t, l in jobs if l == label][0]
            nxt = last + arg[3] if last >= 0 and arg[0] == "modules" else arg[2] if arg[0] == "modules" else None
            text = "mode: %s\n%s" % (arg, ub)
            if nxt is not None and os.path.exists("%s/%d.wasm" % (d, nxt)):
                text = "input: %s\n%s" % (open("%s/%d.wasm" % (d, nxt), "rb").read().hex(), text)
            run.violation_text("Miri (%s): %s" % (label, ub[:400]), text)
    run.cover["executions_under_miri"] = seen
    run.samples.append({"miri": "host 0", "input": open(d + "/0.wasm", "rb").read().hex()[:160]})


def c15(run):
    """The command-line tool on files with a known verdict."""
    tool = cli()
    rel = harness("release")
    d = os.path.join(run.dir, "files")
    os.makedirs(d)
    n = 30000 if run.thorough else 8000
    subprocess.run([rel, "corpus", str(run.seed_u), str(n), d, "2000"], env=env(), check=True)
    from concurrent.futures import ThreadPoolExecutor
    cases = []
    for l in open(d + "/list"):
        i, depth, locs, verdict = l.rstrip("\n").split("\t")
        if int(depth) > 60 or int(locs) > 1000000:
            continue        # the unoptimised tool's stack and the memory are other properties' business
        cases.append((os.path.join(d, i + ".wasm"), verdict))
    plain_ones = len(cases)
    # names that need care, large files, and files that cannot be read
    odd = ["with space.wasm", "x", "UPPER.WASM", "\u00e9.wasm", "a.b.c", "deep/er/f.wasm", "no-extension", "p", "print.wasm", "-x.wasm", "--printer", "-", "new\nline",
           "quote\"s.wasm", "%s{}.wasm", "n" * 200, "deep/er/../up.wasm", os.fsdecode(b"not-utf8-\xff\xfe.wasm"), "link.wasm", "p.p", "-P", "--help.wasm"]
    os.makedirs(os.path.join(d, "deep", "er"))
    good = [c for c in cases if c[1].startswith("valid")][:40]
    poor = [c for c in cases if not c[1].startswith("valid")][:40]
    for k, o in enumerate(odd):
        for j, pick in enumerate((good, poor)):
            src, verdict = pick[(k * 7 + run.seed) % len(pick)]
            f = os.path.join(d, *(["bad"] if j else []), o)
            os.makedirs(os.path.dirname(f), exist_ok=True)
            if o == "link.wasm":
                os.symlink(src, f)
            else:
                shutil.copy(src, f)
            cases.append((f, verdict))
    for o, b in [("empty", b""), ("magic-only", b"\0asm"), ("preamble", b"\0asm\x01\0\0\0"), ("preamble-2", b"\0asm\x02\0\0\0"), ("text", b"(module)")]:
        f = os.path.join(d, o)
        open(f, "wb").write(b)
        v = subprocess.run([rel, "oracle", f], stdout=subprocess.PIPE, env=env()).stdout.decode().strip()
        cases.append((f, v))
    # large files: content far into the file matters as much
    sec = lambda i, b: bytes([i]) + leb(len(b)) + b
    head = b"\0asm\x01\0\0\0"
    large = []
    for n in [4090, 8190, 65530, 65540, 131080, 262150, 1048580, 2097160] + ([4194310, 8388620, 16777230, 33554440] if run.thorough else [16777230]):
        pad = bytes(random.Random(n).randrange(256) for _ in range(997)) * (n // 997 + 1)
        cust = sec(0, b"\1x" + pad[:n])
        ok = sec(1, b"\1\x60\0\0") + sec(3, b"\1\0") + sec(7, b"\1\1e\0\0") + sec(10, b"\1\2\0\x0b")
        no = sec(1, b"\1\x60\0\0") + sec(3, b"\1\0") + sec(7, b"\1\1e\0\1") + sec(10, b"\1\2\0\x0b")
        data = sec(5, b"\1\0\1") + sec(11, b"\1\0\x41\0\x0b" + leb(n) + pad[:n])
        twice = sec(5, b"\1\0\1") + sec(11, b"\2\0\x41\0\x0b" + leb(n) + pad[:n] + b"\1\x41\0\x0b\0")
        for tag, b in [("custom-then-valid", cust + ok), ("custom-then-invalid", cust + no), ("valid-then-custom", ok + cust), ("custom-cut", ok + cust[:-1]), ("custom-then-garbage", cust + ok + b"\x0d\0"),
                       ("data", data), ("data-cut", data[:-1]), ("data-extra", data + b"\0"), ("data-then-invalid", twice)]:
            f = os.path.join(d, "large-%d-%s" % (n, tag))
            open(f, "wb").write(head + b)
            large.append(f)
    out = subprocess.run([rel, "oracle"] + large, stdout=subprocess.PIPE, env=env(), check=True).stdout.decode().split("\n")
    large = list(zip(large, out))
    names = family_names(run, rel)
    for k in range(0, len(names), 1 if run.thorough else 2):
        k = (k + run.seed) % len(names)
        for bad in (0, 1):
            f = os.path.join(d, "family-%d-%d" % (k, bad))
            size = 20000 if run.thorough else 5000
            # the printed text of nested blocks grows with the square of the depth
            while int(subprocess.run([rel, "family", str(k), str(size), str(bad), f], stdout=subprocess.PIPE, env=env(), check=True).stdout.split()[-1]) > 100:
                size //= 2
            v = subprocess.run([rel, "oracle", f], stdout=subprocess.PIPE, env=env()).stdout.decode().strip()
            cases.append((f, v))
    cases.append((os.path.join(d, "missing.wasm"), "unreadable"))
    cases.append((os.path.join(d, "missing dir", "x.wasm"), "unreadable"))
    cases.append((d, "unreadable"))

    def expect(verdict):
        if verdict.startswith("valid"):
            return "valid"
        if verdict.startswith("invalid"):
            return "validat"
        if verdict.startswith("malformed"):
            return "pars"
        return "open"

    def one(job):
        f, verdict, style = job
        argv = {"plain": [tool, f], "p": [tool, "-p", f], "print": [tool, "--print", f], "after": [tool, f, "-p"], "after-long": [tool, f, "--print"],
                "twice": [tool, "-p", f, "--print"], "relative": [tool, os.path.basename(f)], "pipe": [tool, f + ".fifo"]}[style]
        if style == "pipe":
            os.mkfifo(f + ".fifo")
            feed = subprocess.Popen(["sh", "-c", 'exec cat "$1" > "$2"', "sh", f, f + ".fifo"], stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            try:
                p = subprocess.run(argv, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env(), cwd=d, timeout=120)
            finally:
                feed.kill()
                feed.wait()
        else:
            p = subprocess.run(argv, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env(), cwd=os.path.dirname(f) if style == "relative" else d, timeout=120)
        e = expect(verdict)
        both = (p.stdout[:2000] + p.stdout[-2000:] + b"\n" + p.stderr).decode(errors="replace")
        say = lambda m: "%s on a file that is %s (%s): %s; status %d, stderr %r" % (" ".join(argv[1:]).replace(d, "DIR"), verdict, style, m, p.returncode, p.stderr[-200:])
        if p.returncode < 0:
            return say("died")
        if (p.returncode == 0) != (e == "valid"):
            return say("wrong exit status")
        text = both.lower().replace(d.lower(), "")
        if e != "valid":
            stage = {"open": ("open", "read", "no such", "directory"), "pars": ("pars",), "validat": ("validat",)}[e]
            if not any(s in text for s in stage):
                return say("the message does not say that %s failed" % e)
            # nor does it blame another stage
            if any("error %sing" % s in text or "could not %s" % s in text for s in ("pars", "validat", "open", "read") if s not in stage):
                return say("the message blames another stage")
        want = debug.get(f)
        if want is not None:
            printed = "".join(want.split()) in "".join(p.stdout.decode(errors="replace").split())
            if printed != (style not in ("plain", "relative", "pipe")):
                return say("the module's content is printed unasked" if printed else "the module's content is not printed")
            if printed and f not in texts:
                t = os.path.join(d, "texts", "%d" % next(serial))
                open(t, "wb").write(p.stdout)
                texts[f] = t
        return None

    odd_ones = len(cases) - plain_ones
    debug = {}
    texts = {}
    serial = itertools.count()     # jobs run in threads
    os.makedirs(os.path.join(d, "texts"))
    styles = ["plain", "p", "print", "after", "after-long", "relative", "twice"]
    jobs = []
    for k, (f, v) in enumerate(cases):
        few = k >= len(cases) - odd_ones
        for s in styles if few else ["plain", styles[1 + k % 4]]:
            if s == "relative" and (f == d or not os.path.isdir(os.path.dirname(f))):
                continue
            jobs.append((f, v, s))
        if k % 40 == 7 and os.path.isfile(f):
            jobs.append((f, v, "pipe"))
    for k, (f, v) in enumerate(large):
        jobs.append((f, v, "plain"))
        if k % 5 == run.seed % 5:
            jobs.append((f, v, "pipe"))
        if "custom" in f:
            jobs.append((f, v, "p"))

    def dbg(f):
        with open(f, "rb") as fh:
            return f, subprocess.run([rel, "debug"], stdin=fh, stdout=subprocess.PIPE, env=env(), check=True).stdout.decode(errors="replace")
    with ThreadPoolExecutor(CORES) as ex:
        need = [f for f, v in cases + [l for l in large if "custom" in l[0]] if v.startswith("valid")]
        for f, t in ex.map(dbg, need):
            if not t.startswith("error"):
                debug[f] = t
        hist = {}
        for job, r in zip(jobs, ex.map(one, jobs)):
            run.evals += 1
            run.distinct += 1
            key = "%s / %s" % (expect(job[1]), job[2])
            hist[key] = hist.get(key, 0) + 1
            if r and len(run.bad) < 3:
                data = open(job[0], "rb").read().hex() if os.path.isfile(job[0]) else ""
                run.violation_text(r, "file content: " + data)
    # everything the file contains is in the text, whatever the library's own rendering would say
    pairs = sorted(texts.items())
    with open(os.path.join(d, "pairs"), "wb") as fh:
        for f, t in pairs:
            fh.write(os.fsencode(f) + b"\0" + os.fsencode(t) + b"\0")
    out = subprocess.run([rel, "shown", os.path.join(d, "pairs")], stdout=subprocess.PIPE, env=env(), check=True).stdout.decode(errors="replace").split("\n")
    for (f, t), l in zip(pairs, out):
        run.evals += 1
        if l != "complete" and len(run.bad) < 3:
            run.violation_text("the printed content of %s is not complete: %s" % (f.replace(d, "DIR").encode(errors="replace").decode(), l), "file content: " + open(f, "rb").read().hex())
    for argv in ([tool], [tool, "-p"]):
        p = subprocess.run(argv, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env(), cwd=d, timeout=120)
        run.evals += 1
        if p.returncode == 0:
            run.violation_text("success without any file: %s" % argv[1:], "no file")
    run.cover["runs_by_verdict_and_style"] = hist
    run.samples.append({"args": "-p FILE", "verdict": cases[0][1], "bytes": open(cases[0][0], "rb").read().hex()[:160]})


def c16(run):
    if run.bad:
        return
    miri_build(BIG)
    sec = 240 if run.thorough else 25
    jobs = [(["floats", run.seed_u * 100 + i, 100000, sec], BIG, "big-endian %d" % i) for i in range(CORES - 2)]
    jobs.append((["floats", run.seed_u * 100 + 50, 100000, sec], None, "host"))
    miri_build(None)
    seen = {}
    for label, out, ub in miri_modules(run, jobs, sec):
        m = re.search(r"^summary (\d+) (\d+)", out, re.M)
        if m:
            seen[label] = int(m.group(1))
            run.evals += int(m.group(1))
        for b in re.findall(r"^bad \d+ (.*)", out, re.M)[:2]:
            run.violation_text("on a %s host: %s" % (label, b), "args: %s" % [a for a, t, l in jobs if l == label][0])
        if ub:
            raise NoAnswer("undefined behaviour while reading floats: " + ub[:300])
    run.cover["float_reads_interpreted"] = seen


EXTRA = {"C04": c04, "C05": c05, "C06": c06, "C15": c15, "C16": c16}


def rule_of(prop):
    b = os.path.join(TARGET, "checked", "wh")
    return subprocess.run([b, "rule", prop], stdout=subprocess.PIPE, env=env()).stdout.decode().strip()


def main():
    a = sys.argv[1:]
    try:
        if a[:1] == ["--setup"]:
            harness("checked")
            harness("release")
            cli()
            asan()
            miri_build(None)
            miri_build(BIG)
            return 0
        if a[:1] == ["--replay"]:
            b = harness("checked")
            kind, out = run_case(b, a[1])
            print(kind, out)
            return 0 if kind == "held" else 1
        prop = a[0]
        run = Run(prop)
        try:
            if prop == "C15":
                harness("checked")
            else:
                run.generic()
            if prop in EXTRA:
                EXTRA[prop](run)
            return run.finish(rule_of(prop))
        finally:
            shutil.rmtree(run.dir, ignore_errors=True)
    except NoAnswer as e:
        print("no answer:", e)
        return 2
    except subprocess.TimeoutExpired as e:
        print("no answer: timeout of", e.cmd)
        return 2
    except Exception:
        traceback.print_exc()
        return 2


if __name__ == "__main__":
    sys.exit(main())
