"""C17: the real program run on random inputs; Pipeline.tla says what it must have written, the library with which values."""
from api import *
from checks.c15 import phase, flat

BIN = os.path.join(TARGET, "bins", "debug", "physical_tc")
OUT = os.path.join("target", "tc_long_prop", "physical_tc")
MU, T = 1e-3, 1e-4          # units of the grids
G = "qcd::thermal::gluon::propagator_%s%s_landau_w_field_config"
NAMES = {"plain": "nf_2+1", "corrected": "nf_2+1_corrected"}
FIG = {"l": "glulongprop", "t": "glutransprop"}


# ---------------------------------------------------------------- inputs
def grid(g):
    n = (2 * (g[1] - g[0]) + g[2]) // (2 * g[2])
    return [g[0] + k * g[2] for k in range(n + 1)]


def steps(rng, lo, n, d):
    """(min, max, step) of a grid of n + 1 points, whose maximum need not be on it."""
    return [lo, lo + n * d + rng.choice([0, 0, d // 3, -(d // 3)]), d]


def draw(rng):
    i = {}
    lo = rng.choice([0, 0, 50, 100])
    dm = rng.choice([30, 60, 100, 125])
    nm = rng.randint(5, 8)
    i["mus"] = dict(many=steps(rng, lo, nm, dm))
    k = rng.choice([1, 2, 3])
    i["mus"]["few"] = steps(rng, lo + rng.choice([0, dm, 17]), max(1, (nm + 1) // k), rng.choice([k * dm, k * dm + 11]))
    i["mus"]["more"] = steps(rng, lo + rng.choice([0, 40]), rng.randint(1, 3), rng.choice([dm, 190]))
    dt = rng.choice([75, 100, 125, 200])
    nt = rng.randint(8, 14)
    i["temps"] = dict(many=steps(rng, 0, nt, dt))
    i["temps"]["few"] = steps(rng, 0, rng.randint(2, 4), rng.choice([dt, 2 * dt, 3 * dt, 333]))
    i["temps"]["more"] = steps(rng, 0, rng.randint(1, 4), rng.choice([2 * dt, 311]))
    i["mg"], i["om"] = round(rng.uniform(0.4, 0.9), 4), rng.choice([1e-5, 1e-4, 3e-4])
    i["renpoint"], i["f0"] = round(rng.uniform(1.5, 5), 3), round(rng.uniform(-1.2, -0.6), 4)
    i["mq"] = [round(rng.uniform(0.2, 0.6), 4), round(rng.uniform(0.2, 0.8), 4), 1.5]
    i["mqc"] = [round(x * rng.uniform(0.2, 0.8), 4) for x in i["mq"]]
    if rng.random() < 0.25:
        i["mqc"][rng.randint(0, 1)] = i["mq"][0]
    i["momenta"] = [rng.choice([10, 20, 50]), rng.randint(600, 2500), rng.choice([370, 500])]
    return i


def yaml(i):
    fl = lambda v, u: [round(x * u, 7) for x in v]
    d = dict(mg=i["mg"], om=i["om"], renpoint=i["renpoint"], mq=i["mq"], mqc=i["mqc"], f0=i["f0"], momenta=fl(i["momenta"], 1e-3))
    for g in ("few", "more", "many"):
        d[g + "temps"], d[g + "chempots"] = fl(i["temps"][g], T), fl(i["mus"][g], MU)
    return d


def read_yaml(text):
    """The flat subset of YAML that input files use."""
    d, k = {}, None
    for l in text.splitlines():
        l = l.strip()
        if l.startswith("- "):
            d[k].append(float(l[2:]))
        elif ":" in l:
            k, v = l.split(":", 1)
            v = v.strip()
            d[k] = [] if not v else [float(x) for x in v[1:-1].split(",")] if v.startswith("[") else float(v)
    return d


# ---------------------------------------------------------------- real runs
def run_program(i, cwd, log_):
    os.makedirs(cwd, exist_ok=True)
    y = yaml(i)
    with open(os.path.join(cwd, "input.yml"), "w") as f:
        for k, v in y.items():
            f.write("%s: %s\n" % (k, v if not isinstance(v, float) else repr(v) if v >= 1e-3 or v < 0 else "%.1e" % v))
    open(log_, "w").close()
    env = dict(RUST_LOG="error", PYTHONPATH=os.path.join(VERIF, "tools", "stub"), VERIF_PLOTS=log_, RAYON_NUM_THREADS="4",
               PYTHONDONTWRITEBYTECODE="1")
    try:
        p = run([BIN, "input.yml"], timeout=240, cwd=cwd, env=env)
    except subprocess.TimeoutExpired:
        return None, "does not end"
    return p.returncode, p.stderr[-600:]


def table(path):
    with open(path) as f:
        return [[float(x) for x in l.split("\t")] for l in f.read().splitlines()]


# ---------------------------------------------------------------- values
class Values:
    """Normalized propagators, from the library."""

    def __init__(self):
        self.setup, self.calls, self.vals = [], [], {}

    def config(self, n, i):
        for k, (masses, off) in enumerate(((i["mq"], 0), (i["mqc"], 1))):
            self.setup.append("new %d 3 %s 2:%s 1:%s" % (2 * n + off, hx(i["mg"]), hx(masses[0]), hx(masses[1])))

    def pair(self, n, i, pol, mu, t, p, which):
        """Calls for the propagator at p (units of the gluon mass) and at the renormalization point."""
        m = i["mg"]
        f0 = i["f0"] + 4 / 27 * sum(k * math.log(m / q) for k, q in zip((2, 1), i["mq"]))
        if which == "corrected":
            f0 += 4 / 27 * sum(k * math.log(q / c) for k, q, c in zip((2, 1), i["mq"], i["mqc"]))
        c = "F:%d" % (2 * n + (which == "corrected"))
        fn = pick(G % (pol, "_zero_temp" if t == 0 else ""), om="R", p="R")
        th = [] if t == 0 else [1 / (t * T * m)]
        return [(fn, [i["om"], x] + th + [mu * MU, f0, c]) for x in (p * m, i["renpoint"])]

    def ask(self, *a):
        self.calls += self.pair(*a)

    def run(self):
        self.vals = evaluate(self.calls, timeout=60, setup=self.setup)

    def value(self, n, i, *a):
        u, v = [self.vals[key(c)] for c in self.pair(n, i, *a)]
        if isinstance(u, Err) or isinstance(v, Err):
            raise ToolError("reference evaluation failed: %s %s" % (u, v))
        return complex(u).real / complex(v).real * i["mg"] ** 2 / i["renpoint"] ** 2


def kinds(r):
    return {r["which"]} | ({"plain", "corrected"} if r["tie"] else set())


def near(a, b, rel=1e-6):
    return abs(a - b) <= rel * max(abs(a), abs(b))


def polyval(c, x):
    v = 0.0
    for k in reversed(c):
        v = v * x + k
    return v


def main(chk):
    build()
    build("physical_tc")
    r = tlc("PipelineMC", cfg="PipelineMCT" if THOROUGH else "PipelineMC", workers=8, mem="6g", timeout=800)
    if not r.ok:
        raise ToolError("Pipeline.tla: " + r.error)
    chk.add_tlc(r, "Pipeline, arbitrary critical lines (exhaustive)")
    n = 300 if THOROUGH else 16
    ins = [draw(chk.rng) for _ in range(n)]
    base = os.path.join(workdir(), "c17")
    # runs in pairs, the second one in the directory the first one left
    res = {}

    def go(k):
        for j in range(2 * k, min(2 * k + 2, n)):
            cwd = os.path.join(base, str(k))
            rc, err = run_program(ins[j], cwd, os.path.join(base, "plots%d" % j))
            res[j] = (rc, err, collect(cwd, os.path.join(base, "plots%d" % j)))
    os.makedirs(base, exist_ok=True)
    parallel(go, range((n + 1) // 2), 4)
    # ---- what was reported as critical temperatures, as positions in the grid
    runs = []
    V = Values()
    for j, i in enumerate(ins):
        V.config(j, i)
        rc, err, data = res[j]
        info = dict(input=yaml(i), run=j, second_in_directory=j % 2 == 1)
        if rc != 0:
            # a boundary that vanishes from the start is out of the domain: decided below
            runs.append((j, i, None, info, err))
            for t in grid(i["temps"]["many"]):
                V.ask(j, i, "l", grid(i["mus"]["many"])[0], t, i["momenta"][0] * 1e-3, "plain")
            continue
        tc = {}
        for s in ("plain", "corrected"):
            f = "tc_%s.out" % NAMES[s]
            rows = data["files"].get(f)
            mus, ts = grid(i["mus"]["many"]), grid(i["temps"]["many"])
            if rows is None or len(rows) != len(mus) or any(len(x) != 2 or abs(x[0] - m * MU) > 6e-5 for x, m in zip(rows, mus)):
                chk.violation("the file of critical temperatures is not the prescribed one", file=f, rows=str(rows)[:400], **info)
                break
            ks = []
            for x in rows:
                k = [a for a, t in enumerate(ts) if abs(t * T - x[1]) < 6e-5]
                if not k:
                    chk.violation("a critical temperature is not on the grid", file=f, row=x, **info)
                    break
                ks.append(k[0] + 1)
            if len(ks) != len(rows):
                break
            tc[s] = ks
        if len(tc) == 2 and tc["plain"][0] > 1:
            runs.append((j, i, tc, info, None))
        elif len(tc) == 2:
            chk.violation("the corrected stage cannot have a vanishing boundary to classify with", tc=tc["plain"], **info)
    good = [x for x in runs if x[2]]
    if not good:
        V.run()
    out = {}
    if good:
        path = os.path.join(workdir(), "pipeline.json")
        json.dump([dict(temps=i["temps"], mus=i["mus"], tc=tc["plain"], tcc=tc["corrected"]) for _, i, tc, _, _ in good], open(path, "w"))
        r = tlc("PipelineRun", env={"VERIF_INPUTS": path}, workers=4, mem="6g", timeout=600)
        if not r.ok:
            raise ToolError("Pipeline.tla on the recorded runs: " + r.error)
        chk.add_tlc(r, "Pipeline on the recorded runs")
        for l in r.lines:
            out[good[l["inp"] - 1][0]] = l["out"]
        for j, i, tc, _, _ in good:
            for o in out[j]:
                if o["what"] in ("l", "t", "ir", "phase"):
                    ps = grid(i["momenta"]) if o["what"] in FIG else [i["momenta"][0]]
                    for w in kinds(o):
                        for p in ps:
                            V.ask(j, i, "t" if o["what"] == "t" else "l", o["mu"], o["t"], p * 1e-3, w)
        V.run()
    for j, i, tc, info, err in runs:
        chk.n += 1
        if tc is None:
            v = [V.value(j, i, "l", grid(i["mus"]["many"])[0], t, i["momenta"][0] * 1e-3, "plain") for t in grid(i["temps"]["many"])]
            if v[0] >= max(v) * (1 - 1e-9):
                chk.count("outside_domain")
                continue
            chk.violation("the program fails", error=err, **info)
            continue
        judge(chk, V, j, i, out[j], res[j][2], info, ins[j - 1] if j % 2 else None)
    if len(good) < n // 3 and not chk.viol:
        raise ToolError("only %d of %d inputs lie in the domain" % (len(good), n))
    chk.traces = len(good)
    chk.cov["runs"] = len(good)
    chk.assumptions.append("every point of every grid of the runs is compared (relative 1e-6); at points on the uncorrected boundary, up to rounding, "
                           "either masses are accepted; plots are recorded by a stand-in for matplotlib")


def collect(cwd, plots):
    d = os.path.join(cwd, OUT)
    files = {}
    for root, _, fs in os.walk(d):
        for f in fs:
            full = os.path.join(root, f)
            rel = os.path.relpath(full, d)
            if f.endswith("parameters.out"):
                files[rel] = json.loads(open(full).read())
            elif f.endswith(".out"):
                try:
                    files[rel] = table(full)
                except ValueError:
                    files[rel] = "unreadable"
            elif f == "config.yml":
                files[rel] = read_yaml(open(full).read())
    return dict(files=files, plots=[json.loads(l) for l in open(plots)])


def judge(chk, V, j, i, out, data, info, before):
    files = data["files"]
    ps = grid(i["momenta"])
    expected = {"config.yml"}
    for o in out:
        if o["what"] in FIG:
            f = "data/%s_%s_t_%.4f_mu_%.4f.out" % (NAMES[o["name"]], FIG[o["what"]], o["t"] * T, o["mu"] * MU)
            if f in expected:
                raise ToolError("two outputs of one name: " + f)
            expected.add(f)
            rows = files.get(f)
            if rows is None or rows == "unreadable" or len(rows) != len(ps) or any(len(x) != 2 or abs(x[0] - p * 1e-3) > 1e-9 for x, p in zip(rows, ps)):
                chk.violation("a file of propagators is missing or does not list the momenta", file=f, rows=str(rows)[:300], **info)
                continue
            ok = {w: [V.value(j, i, o["what"], o["mu"], o["t"], p * 1e-3, w) for p in ps] for w in kinds(o)}
            chk.n += 1
            if any(all(near(x[1], v) for x, v in zip(rows, vs)) for vs in ok.values()):
                chk.nontrivial.add((o["what"], o["name"], o["which"], o["cold"], j))
                if o["name"] == "corrected":
                    chk.count("points_" + o["which"] if not o["tie"] else "points_on_the_boundary")
                chk.sample(dict(file=f, which=o["which"], rows=rows[:2], input=info["input"]))
            else:
                chk.violation("a file of propagators has the wrong values", file=f, masses=sorted(ok), values=[x[1] for x in rows],
                              expected=list(ok.values()), **info)
        elif o["what"] == "tc":
            ts, mus = grid(i["temps"]["many"]), grid(i["mus"]["many"])
            f = "tc_%s.out" % NAMES[o["name"]]
            expected.add(f)
            curve = {}
            for q in out:
                if q["what"] == "phase" and q["name"] == o["name"]:
                    curve.setdefault(q["mu"], {})[q["t"]] = [V.value(j, i, "l", q["mu"], q["t"], i["momenta"][0] * 1e-3, w) for w in kinds(q)]
            for mu, tc in o["pb"]:
                c = curve[mu]
                chk.n += 1
                if max(c[tc]) < max(min(v) for v in c.values()) * (1 - 1e-8):
                    chk.violation("a critical temperature does not maximize the infrared propagator", file=f, mu=mu * MU, tc=tc * T,
                                  curve={t * T: v for t, v in c.items()}, **info)
            f = "tcd2_%s.out" % NAMES[o["name"]]
            expected.add(f)
            rows = files.get(f)
            h = 2 * i["mus"]["many"][2] * MU
            if rows is None or rows == "unreadable" or len(rows) != len(o["d2"]) or any(
                    len(x) != 2 or abs(x[0] - e[0] * MU) > 1e-9 or abs(x[1] - e[1] * T / (h * h)) > 1e-9 + 1e-9 * abs(x[1]) for x, e in zip(rows, o["d2"])):
                chk.violation("the second derivatives are not those of the critical temperatures", file=f, rows=str(rows)[:400],
                              expected=[(e[0] * MU, e[1] * T / (h * h)) for e in o["d2"]], **info)
        elif o["what"] == "fit":
            f = "tc_%s_fit_parameters.out" % NAMES[o["name"]]
            expected.add(f)
            c = files.get(f)
            chk.n += 1
            if c is None or len(c) != 9:
                chk.violation("the fit is not that of a polynomial of degree eight", file=f, parameters=str(c)[:300], **info)
                continue
            y = yaml(i)
            exact = lambda g, v, u: y[g][0] + y[g][2] * ((v - u[0]) // u[2])
            pb = [(exact("manychempots", m, i["mus"]["many"]), exact("manytemps", t, i["temps"]["many"])) for m, t in o["pb"]]
            a = phase(["fit|8|" + flat(pb)])[0]
            if not a.startswith("V "):
                raise ToolError("the reference fit failed: " + a)
            ref = [xh(x) for x in a[2:].split()]
            off = lambda c: max(abs(polyval(c, m) - t) for m, t in pb)
            # (with fewer points than coefficients only the data it goes through is determined)
            if not (all(near(x, e, 1e-9) for x, e in zip(c, ref)) or off(c) <= 2 * off(ref) + 1e-5 * max(t for _, t in pb)):
                chk.violation("the fit is not that of the reduced uncorrected boundary", file=f, boundary=pb, parameters=c, expected=ref, **info)
            chk.cov["worst_fit"] = max(chk.cov.get("worst_fit", 0), off(ref))
    # ---- the copy of the input
    copy = files.get("config.yml")
    if copy != yaml(i) and not (copy and set(copy) == set(yaml(i)) and all(
            copy[k] == v or isinstance(v, list) and len(v) == len(copy[k]) and all(near(a, b, 1e-12) for a, b in zip(v, copy[k])) for k, v in yaml(i).items())):
        chk.violation("the copy of the input is not the input", copy=str(copy), **info)
    # ---- and nothing else (a previous run may have left its own)
    if before is None:
        more = set(files) - expected
        if more:
            chk.violation("files that are not prescribed", files=sorted(more), **info)
    # ---- the infrared limit is only plotted
    figs = [p for p in data["plots"] if os.path.basename(p["path"]) == "ir_nf_2+1.png"]
    if len(figs) != 1:
        chk.violation("the infrared limit is not plotted once", figures=[p["path"] for p in data["plots"]], **info)
    else:
        ir = [o for o in out if o["what"] == "ir"]
        mus, ts = grid(i["mus"]["more"]), grid(i["temps"]["more"])
        exp = [[V.value(j, i, "l", mu, t, i["momenta"][0] * 1e-3, "plain") for t in ts] for mu in mus]
        got = [s["y"] for s in figs[0]["series"]]
        chk.n += len(ir)
        if len(got) != len(exp) or any(len(a) != len(b) or not all(near(x, y) for x, y in zip(a, b)) for a, b in zip(got, exp)) \
                or any(abs(x - t * T) > 1e-9 for s in figs[0]["series"] for x, t in zip(s["x"], ts)):
            chk.violation("the infrared limit is not what is plotted", plotted=got, expected=exp, **info)
