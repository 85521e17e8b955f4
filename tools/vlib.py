"""Shared machinery of the checks: build, harness process, TLC runner, evidence, verdicts."""
import json, math, os, random, re, select, shutil, struct, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
TARGET = os.path.join(VERIF, "target")
SPEC = os.path.join(VERIF, "spec")
WORK = os.path.join(VERIF, "work")
EXE = os.path.join(TARGET, "debug", "vharness")
SO = os.path.join(TARGET, "debug", "deps", "libqcd_sme.so")
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick") or "quick"
THOROUGH = TIER == "thorough"
SLOW = float(os.environ.get("VERIF_SLOW", "0"))


class ToolError(Exception):
    """Something in the tooling (not in the code under test) went wrong: exit 2."""


# ---------------------------------------------------------------- floats on the wire
def hx(x):
    return struct.pack(">d", float(x)).hex()


def xh(s):
    return struct.unpack(">d", bytes.fromhex(s))[0]


def enc(v):
    if isinstance(v, complex):
        return hx(v.real) + "," + hx(v.imag)
    if isinstance(v, bool):
        raise ToolError("bool argument")
    if isinstance(v, (int, float)):
        return hx(v)
    return v


def dec(s):
    """An answer of the harness: float, complex, or an Err (a panic or a time-out is data)."""
    if s.startswith("R "):
        return xh(s[2:])
    if s.startswith("C "):
        a, b = s[2:].split(",")
        return complex(xh(a), xh(b))
    return Err(s)


class Err(str):
    def __repr__(self):
        return "Err(%s)" % str(self)


# ---------------------------------------------------------------- build
def run(cmd, timeout=600, cwd=None, env=None, check=False, inp=None):
    e = dict(os.environ)
    if env:
        e.update(env)
    p = subprocess.run(cmd, cwd=cwd, env=e, input=inp, capture_output=True, text=True, timeout=timeout)
    if check and p.returncode != 0:
        raise ToolError("%s failed (%s):\n%s" % (cmd, p.returncode, (p.stdout + p.stderr)[-3000:]))
    return p


_built = set()


def build(what="harness"):
    """Rebuilds what a check needs from /repo's current working tree (cargo decides what is stale)."""
    if what in _built:
        return
    os.makedirs(os.path.join(REPO, "target"), exist_ok=True)
    env = {"CARGO_NET_OFFLINE": "true", "CARGO_TARGET_DIR": TARGET}
    # build.rs writes the C headers into /repo/target (ignored by git)
    for d in ("debug", "release"):
        os.makedirs(os.path.join(REPO, "target", d, "include"), exist_ok=True)
    t0 = time.time()
    if what == "harness":
        p = run(["cargo", "build", "--offline", "--quiet"], cwd=os.path.join(VERIF, "harness"), env=env, timeout=1500)
        if p.returncode != 0:
            # without the scheduled number type, which depends on the whole of the trait of numbers
            q = run(["cargo", "build", "--offline", "--quiet", "--no-default-features"], cwd=os.path.join(VERIF, "harness"), env=env, timeout=1500)
            if q.returncode == 0:
                log("no scheduled number type:\n" + p.stderr[-1500:])
                p = q
    elif what in ("physical_tc", "survey"):
        # git ignores the lock file: where it is missing, the one the library was developed with
        lock = os.path.join(REPO, "Cargo.lock")
        if not os.path.exists(lock):
            shutil.copyfile(os.path.join(VERIF, "harness", "repo.lock"), lock)
        # the survey programs run for minutes
        opts = ["opt-level=1"] if what == "physical_tc" else ["opt-level=3", "debug-assertions=false", "overflow-checks=false"]
        opts = [x for o in opts + ["debug=0", "incremental=false"] for x in ("--config", "profile.dev." + o)]
        p = run(
            ["cargo", "build", "--offline", "--quiet", "--manifest-path", os.path.join(REPO, "Cargo.toml"), "-p", "tc_long_prop", "--bins"] + opts,
            env=dict(env, CARGO_TARGET_DIR=os.path.join(TARGET, "bins" if what == "physical_tc" else what)), timeout=1500)
    else:
        raise ToolError("unknown build " + what)
    if p.returncode != 0:
        raise ToolError("build of %s failed:\n%s" % (what, (p.stdout + p.stderr)[-4000:]))
    _built.add(what)
    log("built %s in %.1f s" % (what, time.time() - t0))


def log(*a):
    print(*a, file=sys.stderr, flush=True)


# ---------------------------------------------------------------- harness process
class Harness:
    """One harness process. Every command has an answer; a dead or hanging process is an answer too."""

    def __init__(self, exe=None, timeout=60):
        self.exe = exe or EXE
        self.timeout = timeout
        self.restarts = 0
        self.fragile = False    # stop at the first answer that is missing (what follows needs what came before)
        self.threads = 0        # how many more threads of the process commands are spread over
        self.sent = 0
        self.prologue = []      # commands repeated whenever the process had to be restarted
        self.p = None
        self._start()

    def _start(self):
        self.p = subprocess.Popen([self.exe, "serve"], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        self.buf = b""
        for l in self.prologue:
            self.p.stdin.write((l + "\n").encode())
        if self.prologue:
            self.p.stdin.flush()
            for _ in self.prologue:
                self._readline(60)

    def close(self):
        try:
            self.p.stdin.close()
            self.p.wait(5)
        except Exception:
            self.p.kill()
            self.p.wait()

    def _dead(self):
        rc = self.p.wait()
        err = self.p.stderr.read().decode(errors="replace")
        if rc == 3 or "HARNESS-ERROR" in err:
            raise ToolError("harness: " + err[-500:])
        return Err("DIED %s" % rc)

    def cmd(self, line, timeout=None):
        return self.cmds([line], timeout)[0]

    def cmds(self, lines, timeout=None):
        """Pipelined: writes a batch and reads as many answers."""
        out = []
        i = 0
        t = timeout or self.timeout
        B = 400
        if self.threads:
            lines = [self._somewhere(l) for l in lines]
        while i < len(lines):
            # a chunk fits into the pipe, so that writing it never waits for answers to be read
            j, size = i, 0
            while j < len(lines) and j - i < B and (size == 0 or size + len(lines[j]) < 40000):
                size += len(lines[j]) + 1
                j += 1
            chunk = lines[i:j]
            try:
                self.p.stdin.write(("\n".join(chunk) + "\n").encode())
                self.p.stdin.flush()
            except BrokenPipeError:
                pass
            for k in range(len(chunk)):
                t0 = time.time()
                r = self._readline(t)
                if SLOW and time.time() - t0 > SLOW:
                    log("slow %.2fs: %s" % (time.time() - t0, chunk[k]))
                if isinstance(r, Err):
                    out.append(r)
                    self.restarts += 1
                    if r.startswith("TIMEOUT"):
                        self.p.kill()
                        self.p.wait()
                    self._start()
                    if self.fragile:
                        return out
                    i += k + 1
                    break
                out.append(r)
            else:
                i += len(chunk)
                continue
        return out

    def _somewhere(self, line):
        self.sent += 1
        k = (self.sent * 2654435761 >> 7) % (self.threads + 1)
        return "@%d %s" % (k - 1, line) if k and line.split()[0] in ("set", "get", "new", "clone", "mut", "show", "eval") else line

    def _readline(self, t):
        while b"\n" not in self.buf:
            r, _, _ = select.select([self.p.stdout], [], [], t)
            if not r:
                return Err("TIMEOUT after %ss" % t)
            d = os.read(self.p.stdout.fileno(), 1 << 16)
            if not d:
                return self._dead()
            self.buf += d
        l, self.buf = self.buf.split(b"\n", 1)
        return l.decode()

    def ev(self, f, *a, timeout=None):
        return dec(self.cmd(call(f, *a), timeout))

    def evs(self, calls, timeout=None):
        return [dec(x) for x in self.cmds([call(*c) for c in calls], timeout)]


def call(f, *a):
    return "eval " + f + " " + " ".join(enc(x) for x in a)


_list = None


def functions():
    """name -> (argnames, type string); from the harness' own table."""
    global _list
    if _list is None:
        _list = {}
        for l in run([EXE, "list"], check=True).stdout.splitlines():
            n, t, a = l.split()
            _list[n] = (a.split(","), t)
    return _list


# ---------------------------------------------------------------- numbers
def close(a, b, rel=1e-9, abs_=0.0):
    if isinstance(a, Err) or isinstance(b, Err):
        return False
    a, b = complex(a), complex(b)
    if a == b:
        return True
    if any(x != x for x in (a.real, a.imag, b.real, b.imag)):
        return all((x != x) == (y != y) for x, y in ((a.real, b.real), (a.imag, b.imag)))
    d = abs(a - b)
    return d <= rel * max(abs(a), abs(b)) + abs_


# ---------------------------------------------------------------- TLC
class TlcResult:
    def __init__(self):
        self.ok = True
        self.error = ""
        self.states = self.distinct = 0
        self.lines = []
        self.out = ""
        self.actions = {}


TLC_CP = "/opt/veriftools/tla/tla2tools.jar"


def tlc(module, cfg=None, workers=1, simulate=None, depth=None, seed=None, timeout=600, env=None, deadlock=False,
        mem="3g", coverage=False, dfs=False, post_err_ok=False):
    """Runs TLC on spec/<module>.tla with spec/<cfg>.cfg. Lines printed by the spec as @@json are collected."""
    meta = tempfile.mkdtemp(prefix="tlc_", dir=workdir())
    cmd = ["tlc", "-metadir", meta, "-workers", str(workers), "-config", os.path.join(SPEC, (cfg or module) + ".cfg")]
    if not deadlock:
        cmd += ["-deadlock"]
    if simulate:
        cmd += ["-simulate", "num=%d" % simulate]
        cmd += ["-depth", str(depth or 50)]
    if seed is not None:
        cmd += ["-seed", str(seed)]
    if coverage:
        cmd += ["-coverage", "1"]
    cmd += ["-noGenerateSpecTE", os.path.join(SPEC, module + ".tla")]
    e = dict(env or {})
    jopts = "-Xmx%s -XX:+UseParallelGC" % mem
    if dfs:
        jopts += " -Dtlc2.tool.queue.IStateQueue=StateDeque"
    e["JAVA_TOOL_OPTIONS"] = jopts
    t0 = time.time()
    try:
        p = run(cmd, timeout=timeout, cwd=SPEC, env=e)
    except subprocess.TimeoutExpired:
        raise ToolError("TLC timed out on %s" % module)
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    r = TlcResult()
    r.out = p.stdout
    r.wall = time.time() - t0
    r.rc = p.returncode
    for l in p.stdout.splitlines():
        l = l.strip()
        if l.startswith('"@@'):
            r.lines.append(json.loads(json.loads(l)[2:]))
        m = re.match(r"([\d,]+) states generated, ([\d,]+) distinct states found", l)
        if m:
            r.states, r.distinct = int(m.group(1).replace(",", "")), int(m.group(2).replace(",", ""))
        m = re.match(r"The number of states generated: ([\d,]+)", l)
        if m:
            r.states = int(m.group(1).replace(",", ""))
        m = re.match(r"<(\w+) line .*>: ([\d,]+):([\d,]+)", l)
        if m:
            r.actions[m.group(1)] = r.actions.get(m.group(1), 0) + int(m.group(3).replace(",", ""))
    if p.returncode != 0:
        r.ok = False
        r.error = "\n".join(x for x in p.stdout.splitlines() if not x.startswith('"@@'))[-3000:]
    return r


def workdir():
    d = os.path.join(WORK, str(os.getpid()))
    os.makedirs(d, exist_ok=True)
    return d


def cleanup():
    shutil.rmtree(os.path.join(WORK, str(os.getpid())), ignore_errors=True)


# ---------------------------------------------------------------- verdicts
def known_findings():
    p = os.path.join(VERIF, "known_findings.jsonl")
    if not os.path.exists(p):
        return []
    return [json.loads(l) for l in open(p) if l.strip()]


class Check:
    """Collects what a check covered and what it found, and turns it into an exit code."""

    def __init__(self, pid, level="model_checking"):
        self.pid, self.level = pid, level
        self.t0 = time.time()
        self.cov = {}
        self.viol = []
        self.known = {}
        self.samples = []
        self.n = 0
        self.assumptions = []
        self.rng = random.Random("%s-%s" % (pid, SEED))
        self.findings = [f for f in known_findings() if f["property"] == pid and f["status"] == "known"]
        self.states = self.transitions = self.traces = 0
        self.nontrivial = set()

    def count(self, k, n=1):
        self.cov[k] = self.cov.get(k, 0) + n

    def add_tlc(self, r, what=None):
        self.states += r.distinct or r.states
        self.transitions += r.states
        if what:
            self.cov.setdefault("tlc", {})[what] = {"generated": r.states, "distinct": r.distinct, "wall_s": round(r.wall, 2)}

    def sample(self, s, cap=5):
        if len(self.samples) < cap:
            self.samples.append(s)

    def violation(self, what, **info):
        self.viol.append(dict(what=what, **info))

    def finish(self):
        for f in self.findings:
            hits = self.known.get(f["id"], 0)
            if hits:
                print("KNOWN-FINDING: property=%s %s (%d cases this run)" % (self.pid, f["what"], hits))
        cov = dict(self.cov)
        cov.setdefault("states", self.states)
        cov.setdefault("transitions", self.transitions)
        cov.setdefault("traces_validated_against_impl", self.traces)
        cov.setdefault("evaluations", self.n)
        if self.nontrivial:
            cov["distinct_nontrivial"] = len(self.nontrivial)
        cov["samples"] = self.samples or ["none"]
        cov["known_finding_cases"] = dict(self.known)
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        json.dump(
            dict(property=self.pid, tier="thorough" if THOROUGH else "quick", seed=SEED, level=self.level, coverage=cov,
                 assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2), violations=len(self.viol)),
            open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w"), indent=1, default=str)
        if self.viol:
            d = os.path.join(VERIF, "evidence", "replay")
            os.makedirs(d, exist_ok=True)
            path = os.path.join(d, self.pid + ".json")
            json.dump(self.viol[:50], open(path, "w"), indent=1, default=str)
            for v in self.viol[:5]:
                log("  violation:", json.dumps(v, default=str)[:1500])
            print("VIOLATION property=%s replay=%s (%d cases)" % (self.pid, path, len(self.viol)))
            return 1
        print("OK property=%s %s" % (self.pid, json.dumps({k: v for k, v in cov.items() if isinstance(v, (int, float))})))
        return 0
