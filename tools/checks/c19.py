"""C19: the survey programs are run once, whole; Survey.tla says which figures and lines they owe, the library which values."""
import re, threading
from api import *

BINS = os.path.join(TARGET, "survey", "debug")
# what the programs announce (see the statement of C19); lengths in units of the gluon mass
M, F0, OM, REN, NC = 0.656, -0.876, 1e-5, 4.0, 3
TEMPS = [0.05, 0.08, 0.12, 0.15, 0.18, 0.21]
P = [0.01 + 0.01 * k for k in range(300)]
IRT = [0.0] + [0.01 + 0.005 * k for k in range(39)]
PROGS = {
    "one_mass_overall": dict(prog=1, flavors=[1, 2, 4, 6], q=[[0.08], [0.4], [0.8]], mus=[0.1 * k for k in range(11)]),
    "two_masses_overall": dict(prog=2, flavors=[1, 4], q=[[0.3, 0.4], [0.3, 0.6], [0.8, 1.0], [0.3, 1.0]], mus=[0.1 * k for k in range(13)]),
}


def start(name, base):
    cwd = os.path.join(base, name)
    os.makedirs(cwd)
    plots = os.path.join(base, name + ".plots")
    open(plots, "w").close()
    env = dict(os.environ, PYTHONPATH=os.path.join(VERIF, "tools", "stub"), VERIF_PLOTS=plots, PYTHONDONTWRITEBYTECODE="1")
    env.pop("RAYON_NUM_THREADS", None)
    with open(os.path.join(base, name + ".err"), "w") as err:
        p = subprocess.Popen([os.path.join(BINS, name)], cwd=cwd, env=env, stdout=subprocess.DEVNULL, stderr=err)
    return p


# ---------------------------------------------------------------- names
def qname(g, n, sep="_"):
    """The part of a file name that tells the masses."""
    many = len(g["q"][0]) > 1
    return "_".join("mq%s_%s" % (k + 1 if many else "", "NA" if n["nf"] == 0 else "%.3f" % m) for k, m in
                    enumerate(g["q"][max(n["q"], 1) - 1]))


def path(g, n):
    s = "nf_%d_%s" % (n["nf"], qname(g, n))
    if n["kind"] == "mom":
        return s + "_mu_" + ("NA" if n["nf"] == 0 else "%.3f" % g["mus"][n["u"] - 1])
    return n["kind"] + "_" + s


def numbers(s):
    """The values a title or a legend states, in order (powers and indices apart)."""
    s = re.sub(r"\^\{[^}]*\}|_\{[^}]*\}", "", s or "")
    return [float(x) for x in re.findall(r"(?<![A-Za-z])-?\d+(?:\.\d*)?", s)]


def stated(g, n):
    if n["nf"] == 0:
        return [0.0]
    return [round(x, 3) for x in g["q"][n["q"] - 1]] + [float(n["nf"])] + ([round(g["mus"][n["u"] - 1], 3)] if n["kind"] == "mom" else [])


# ---------------------------------------------------------------- values
class Values:
    def __init__(self):
        self.calls, self.vals = {}, {}

    def pair(self, g, w, t, p):
        """The propagator at p and at the renormalization point; w: what it is evaluated with."""
        out = []
        for x in (p * M, REN):
            if w["nf"] == 0:
                c = (("ym::gluon::propagator_landau", "s"), [(OM * OM + x * x) / (M * M), F0]) if t == 0 else \
                    (("ym::thermal::gluon::propagator_l_landau", "om"), [OM, x, M, 1 / (t * M), F0])
                st = ()
            else:
                mu = g["mus"][w["u"] - 1]
                f = "qcd::thermal::gluon::propagator_l%s_landau" % ("_zero_temp" if t == 0 else "")
                th = [] if t == 0 else [1 / (t * M)]
                if g["prog"] == 1:
                    c = ((f, "om"), [OM, x, M, g["q"][w["q"] - 1][0]] + th + [mu, F0])
                    st = ("set nf %d" % w["nf"],)
                else:
                    c = ((f + "_w_field_config", "om"), [OM, x] + th + [mu, F0, "F:0"])
                    st = ("new 0 %d %s %s" % (NC, hx(M), " ".join("%d:%s" % (w["nf"], hx(m)) for m in g["q"][w["q"] - 1])),)
            out.append((st, (pick(c[0][0], **{c[0][1]: "R"}), c[1])))
        return out

    def ask(self, *a):
        for st, c in self.pair(*a):
            self.calls.setdefault(st, {})[key(c)] = c

    def run(self):
        for st, cs in self.calls.items():
            for k, v in evaluate(list(cs.values()), timeout=60, setup=st).items():
                self.vals[st, k] = v

    def value(self, *a):
        v = [self.vals[st, key(c)] for st, c in self.pair(*a)]
        if any(isinstance(x, Err) for x in v):
            raise ToolError("reference evaluation failed: %s" % v)
        return complex(v[0]).real / complex(v[1]).real * M * M / (REN * REN)


def near(a, b, rel=1e-6):
    return abs(a - b) <= rel * max(abs(a), abs(b))


def same(xs, ys, tol=1e-9):
    return len(xs) == len(ys) and all(abs(x - y) <= tol for x, y in zip(xs, ys))


def main(chk):
    build()
    build("survey")
    base = os.path.join(workdir(), "c19")
    os.makedirs(base)
    procs = {n: start(n, base) for n in PROGS}
    try:
        checks(chk, base, procs)
    finally:
        for p in procs.values():
            if p.poll() is None:
                p.kill()
                p.wait()


def checks(chk, base, procs):
    r = tlc("SurveyMC", cfg="SurveyMCT" if THOROUGH else "SurveyMC", workers=2, mem="3g", timeout=600)
    if not r.ok:
        raise ToolError("Survey.tla: " + r.error)
    chk.add_tlc(r, "Survey, arbitrary critical lines (exhaustive)")
    r = tlc("SurveyMC", cfg="SurveyEarly", workers=1, timeout=300)
    if r.ok or "OwnSettings" not in r.error + r.out:
        raise ToolError("Survey.tla does not notice a register set too late")
    t0 = time.time()
    inputs, runs = [], []
    for name, g in PROGS.items():
        info = dict(program=name)
        try:
            rc = procs[name].wait(timeout=max(1, 780 - (time.time() - t0)))
        except subprocess.TimeoutExpired:
            raise ToolError("%s takes too long" % name)
        if rc != 0:
            chk.violation("the program fails", rc=rc, error=open(os.path.join(base, name + ".err")).read()[-800:], **info)
            continue
        figs = {}
        for l in open(os.path.join(base, name + ".plots")):
            f = json.loads(l)
            figs.setdefault(os.path.basename(f["path"])[:-4], []).append(f)
        d = os.path.join(base, name, "target", "tc_long_prop", name)
        try:
            rows = [[float(x) for x in l.split("\t")] for l in open(os.path.join(d, "tc.out")).read().splitlines()]
        except (OSError, ValueError) as e:
            chk.violation("no readable table of critical temperatures", error=str(e), **info)
            continue
        # the critical temperatures of the table, as positions, in the order of the specification
        order = [(0, 0, 0)] + [(nf, q, u) for nf in g["flavors"] for q in range(1, len(g["q"]) + 1) for u in range(1, len(g["mus"]) + 1)]
        head = {}
        for nf, q, u in order:
            k = [float(nf)] + ([0.0] * len(g["q"][0]) + [0.0] if nf == 0 else [round(x, 3) for x in g["q"][q - 1]] + [round(g["mus"][u - 1], 3)])
            head[tuple(k)] = (nf, q, u)
        tc, ok = {}, True
        for x in rows:
            w = head.get(tuple(x[:-1]))
            # (three digits are written, and the grid has half steps of them)
            k = [a for a, t in enumerate(IRT) if abs(t - x[-1]) < 6e-4]
            if w is None or w in tc or not k:
                chk.violation("a line of the table that is not prescribed", line=x, **info)
                ok = False
            else:
                tc[w] = k[0] + 1
        if ok and set(tc) != set(order):
            chk.violation("combinations without a critical temperature", missing=sorted(set(order) - set(tc)), **info)
            ok = False
        if ok:
            inputs.append(dict(prog=g["prog"], flavors=g["flavors"], masses=len(g["q"]), mus=len(g["mus"]), temps=len(TEMPS), irtemps=len(IRT),
                               tc=[tc[w] for w in order]))
            runs.append((name, g, figs, info))
    if not runs:
        return
    f = os.path.join(workdir(), "survey.json")
    json.dump(inputs, open(f, "w"))
    r = tlc("SurveyRun", env={"VERIF_INPUTS": f}, workers=1, mem="4g", timeout=300)
    if not r.ok:
        raise ToolError("Survey.tla on the recorded runs: " + r.error)
    chk.add_tlc(r, "Survey on the recorded runs")
    V, todo = Values(), []
    rng = chk.rng
    for l in r.lines:
        name, g, figs, info = runs[l["inp"] - 1]
        line = {(x["nf"], x["q"], x["u"]): x["tc"] for x in l["lines"]}
        names = {path(g, o["name"]) for o in l["out"]}
        for k in set(figs) - names:
            chk.violation("a figure that is not prescribed", figure=k, **info)
        for o in l["out"]:
            n, k = o["name"], path(g, o["name"])
            chk.n += 1
            if len(figs.get(k, [])) != 1:
                chk.violation("a prescribed figure is not drawn exactly once", figure=k, times=len(figs.get(k, [])), **info)
                continue
            fig = figs[k][0]
            info_ = dict(info, figure=k)
            if numbers(fig["title"]) != stated(g, n):
                chk.violation("the title of a figure does not state what it shows", title=fig["title"], prescribed=stated(g, n), **info_)
            chk.nontrivial.add((name, n["kind"], n["nf"], n["q"]))
            if n["kind"] == "tc":
                s = fig["series"]
                y = [IRT[t - 1] for t in o["tcs"]]
                if len(s) != 1 or not same(s[0]["x"], g["mus"]) or not same(s[0]["y"], y):
                    chk.violation("the critical temperatures drawn are not those of the table", drawn=str(s)[:600], table=y, **info_)
                continue
            xs = P if n["kind"] == "mom" else IRT
            if len(fig["series"]) != len(o["curves"]) or any(not same(s["x"], xs) or len(s["y"]) != len(xs) for s in fig["series"]):
                chk.violation("a figure does not have the prescribed curves", curves=[len(s["y"]) for s in fig["series"]],
                              prescribed=len(o["curves"]), **info_)
                continue
            for a, (s, c) in enumerate(zip(fig["series"], o["curves"])):
                chk.n += 1
                if n["kind"] == "mom":
                    lab = [[0.0] + TEMPS][0][c["t"]]
                    pts = {0, len(P) - 1, rng.randrange(len(P))} if not THOROUGH else set(range(0, len(P), 7)) | {len(P) - 1}
                    at = [(x, lab, P[x]) for x in sorted(pts)]
                else:
                    lab = g["mus"][c["with"]["u"] - 1] if n["nf"] else None
                    pts = {0, rng.randrange(1, 20), rng.randrange(20, len(IRT))} if not THOROUGH else range(len(IRT))
                    at = [(x, IRT[x], P[0]) for x in sorted(pts)]
                    tc = line[n["nf"], n["q"], c["with"]["u"]]
                    top, got = max(s["y"]), s["y"][tc - 1]
                    if got < top - 1e-9 * abs(top) or got == top and s["y"].index(top) != tc - 1:
                        chk.violation("a critical temperature is not the first that maximizes the infrared curve", curve=s["y"],
                                      at=a + 1, reported=IRT[tc - 1], **info_)
                if s["label"] is not None and (len(numbers(s["label"])) != 1 or abs(numbers(s["label"])[0] - lab) > 5.1e-4) or \
                        s["label"] is None and n["nf"] + (n["kind"] == "mom") > 0:
                    chk.violation("the legend of a curve does not state what it shows", legend=s["label"], prescribed=lab, curve=a + 1, **info_)
                for x, t, p in at:
                    V.ask(g, c["with"], t, p)
                    todo.append((info_, a, s, x, g, c["with"], t, p))
    V.run()
    bad = set()
    for info, a, s, x, g, w, t, p in todo:
        chk.n += 1
        v = V.value(g, w, t, p)
        if not near(v, s["y"][x]) and (info["figure"], a) not in bad:
            bad.add((info["figure"], a))
            chk.violation("a curve is not the propagator it is meant to be", curve=a + 1, legend=s["label"], x=s["x"][x], drawn=s["y"][x],
                          expected=v, settings=w, masses=g["q"][w["q"] - 1] if w["nf"] else None,
                          mu=g["mus"][w["u"] - 1] if w["nf"] else None, temperature=t, **info)
        elif len(chk.nontrivial) % 97 == 0:
            chk.sample(dict(figure=info["figure"], curve=a + 1, x=s["x"][x], value=v))
    chk.traces = len(runs)
    chk.cov["points"] = len(todo)
    chk.assumptions.append("the programs have no inputs, so that one run of each is all of them; %s of each curve are compared (relative 1e-6)"
                           % ("one point in seven" if THOROUGH else "three points"))
