"""C05: the web of laws of Families.tla, every edge replayed on the library."""
import itertools
from api import *

SEPNAME = {("gluon", "xi"): "gluon::ym_dressing_inv_sep", ("gluon", "landau"): "gluon::ym_dressing_inv_landau_sep",
           ("ghost", "xi"): "ghost::dressing_inv_sep", ("ghost", "landau"): "ghost::dressing_inv_landau_sep"}
CFGS = {0: (5, [(2, 0.45), (1, 0.8)]), 1: (3, []), 2: (1, [(0, 0.3), (3, 1.1), (1, 1.1)])}


def name(n):
    if n["kind"] == "corr":
        return symbol(n["s"])
    if n["kind"] == "sepinv":
        return "low_level::oneloop::" + SEPNAME[(n["s"]["field"], n["s"]["gauge"])]
    return "low_level::oneloop::" + n["blk"] + ("_sep" if n["sep"] else "")


MAIN = ("s", "om", "p", "ln_s", "ln_s_pl_1")


def instance(n):
    """The monomorphic instance of a node: all momenta real, or as many complex ones as it takes."""
    vs = variants(name(n))
    best = None
    for v in vs:
        ts = [t for a, t in zip(*functions()[v]) if a in MAIN]
        if n["ty"] == "R" and all(t == "R" for t in ts):
            return v
        if n["ty"] == "C" and "C" in ts and (best is None or ts.count("C") > best[0]):
            best = (ts.count("C"), v)
    return best[1] if best else None


def points(rng, n):
    """Points in the parts into which a bound could split the domain."""
    out = []
    for i in range(n):
        lo, hi = [(0.3, 2.0), (0.6, 3.5), (0.25, 0.9)][i % 3]
        pt = Point(rng, lo=lo, hi=hi)
        if i % 4 == 1:
            pt.s, pt.sC = math.exp(rng.uniform(-7, -2)), complex(rng.uniform(-3, 3), rng.choice([-1, 1]) * rng.uniform(0.1, 2))
        if i % 4 == 2:
            pt.s, pt.sC = math.exp(rng.uniform(3, 8)), complex(rng.uniform(20, 50), rng.uniform(-9, 9))
        if i % 5 == 3:
            pt.om, pt.omC = -pt.om, complex(-pt.om, 0.1)
        if i % 5 == 4:
            pt.p, pt.pC = -pt.p, complex(-pt.p, -0.1)
        if i % 6 == 5:
            pt.mu = pt.mq * rng.choice([1.0, -1.3, 2.5])
        out.append(pt)
    return out


def far_points(rng, n):
    """Squared momenta of any size, for the functions that cost nothing."""
    out = []
    for _ in range(n):
        pt = Point(rng)
        pt.s = math.exp(rng.uniform(-14, 9.5))
        pt.sC = math.exp(rng.uniform(-14, 9.5)) * complex(rng.uniform(-1, 1), rng.choice([-1, 1]) * math.exp(rng.uniform(-4, 0)))
        out.append(pt)
    return out


def far_thermal(rng, n):
    """Hot, cold, and momenta above or below the masses."""
    out = []
    for k in range(n):
        pt = Point(rng, lo=[1.5, 0.15][k % 2], hi=[8, 0.6][k % 2])
        pt.beta = rng.uniform(40, 200) if k % 4 < 2 else rng.uniform(0.1, 0.4)
        out.append(pt)
    return out


class Node:
    def __init__(self, n, fn, pt, ci, embed):
        self.n, self.fn, self.pt = n, fn, pt
        names, types = functions()[fn]
        self.args = []
        for a, t in zip(names, types):
            if a == "xi" and n["zero"]:
                v = 0.0
            elif t == "F":
                v = "F:%d" % ci
            elif embed and a in MAIN:
                # the same point reached through a type: real numbers as complex ones
                v = {"s": pt.s, "om": pt.om, "p": pt.p, "ln_s": math.log(pt.s), "ln_s_pl_1": math.log(pt.s + 1)}[a]
                v = complex(v) if t == "C" else v
            else:
                v = pt.arg(a, t)
            self.args.append(v)

    def key(self):
        return key((self.fn, self.args))


def p2node(n, pt, embed):
    s = n["s"]
    C = n["ty"] == "C" and not embed
    if s["reg"] == "vac":
        return pt.sC if C else pt.s
    om, p = (pt.omC if C else pt.om), (pt.pC if C else pt.p)
    # instances whose momentum is real in spite of a complex frequency
    fn = instance(n)
    if ty_of(fn, "p") != "C":
        p = pt.p
    if ty_of(fn, "om") != "C":
        om = pt.om
    return {"gen": om * om + p * p, "zm": p * p, "zp": om * om}[s["reg"]]


def main(chk):
    build()
    r = tlc("Families")
    if not r.ok:
        raise ToolError("Families: " + r.error)
    chk.add_tlc(r, "Families")
    npts = 400 if THOROUGH else 40
    setup = ["new %d %d %s %s" % (i, nc, hx(0.7), " ".join("%d:%s" % (k, hx(m)) for k, m in q)) for i, (nc, q) in CFGS.items()]
    pts = points(chk.rng, npts)
    far, hot = far_points(chk.rng, 2000 if THOROUGH else 120), far_thermal(chk.rng, 16 if THOROUGH else 4)
    cases, missing, seen = [], set(), set()
    for e in r.lines:
        a, b = instance(e["from"]), instance(e["to"])
        for x, n in ((a, e["from"]), (b, e["to"])):
            if x is None:
                missing.add(name(n) + "#" + n["ty"])
            else:
                seen.add(x)
        if a is None or b is None:
            continue
        emb = e["law"] == "embed"
        vac = e["from"]["kind"] != "corr" or e["from"]["s"]["reg"] == "vac"
        for i, pt in enumerate(pts + (far if vac else hot)):
            ci = i % len(CFGS)
            cases.append((e, Node(e["from"], a, pt, ci, emb), Node(e["to"], b, pt, ci, emb), pt, emb))
    vals = evaluate([(n.fn, n.args) for c in cases for n in (c[1], c[2])], timeout=2, setup=setup)
    slow, suspects = 0, []

    def fail(e, x, y, pt, u, v):
        chk.violation("law %s broken" % e["law"], source=call(x.fn, *x.args), source_value=str(u),
                      target=call(y.fn, *y.args), target_value=str(v), args=dict(vars(pt)), setup=setup)

    for e, x, y, pt, emb in cases:
        u, v = vals[x.key()], vals[y.key()]
        if isinstance(u, Err) and u.startswith("TIMEOUT") and isinstance(v, Err) and v.startswith("TIMEOUT"):
            slow += 1
            continue
        chk.n += 1
        ok = False
        if not isinstance(u, Err) and not isinstance(v, Err):
            z = p2node(e["to"], pt, emb) if e["from"]["kind"] == "corr" and e["k"] else 1
            try:
                exp = complex(u) ** e["e"] * complex(z) ** e["k"]
            except ZeroDivisionError:
                exp = float("nan")
            # real and complex arithmetic take different paths through the integrals
            tol = 1e-6 if emb and e["from"]["s"]["temp"] != "-" else 1e-9
            ok = close(v, exp, tol) or (emb and e["from"]["s"]["temp"] != "-" and near(u, v, e, z_of(e, pt, emb)))
        if ok:
            chk.nontrivial.add((x.fn, y.fn, e["law"]))
            chk.sample(dict(law=e["law"], source=call(x.fn, *x.args), target=call(y.fn, *y.args), value=str(v)))
        elif (e["from"]["kind"] != "corr" or e["from"]["s"]["reg"] == "vac") and not isinstance(u, Err) and not isinstance(v, Err):
            suspects.append((e, x, y, pt, u, v, exp, z))
        else:
            fail(e, x, y, pt, u, v)
    # closed forms cancel at small and large momenta: compared with what the values are worth
    noise = noises([(n.fn, n.args) for w in suspects for n in w[1:3]], chk.rng, setup)
    for e, x, y, pt, u, v, exp, z in suspects:
        nu = noise[x.key()] * abs(complex(z)) ** e["k"] * (1 if e["e"] == 1 else abs(complex(u)) ** -2 if u else math.inf)
        if not abs(complex(v) - exp) <= 100 * (nu + noise[y.key()]) + 1e-9 * abs(exp):
            fail(e, x, y, pt, u, v)
    chk.cov["judged_by_their_noise"] = len(suspects)
    chk.traces = len(chk.nontrivial)
    # every correlator function must be in the web
    top = {f.split("#")[0] for f in functions() if f.split("::")[0] in ("ym", "qcd") and "::quark::" not in f}
    rest = top - {f.split("#")[0] for f in seen}
    if rest:
        raise ToolError("functions outside the specification: %s" % sorted(rest))
    chk.cov["functions_in_the_web"] = len(seen)
    chk.cov["laws"] = len(r.lines)
    chk.cov["laws_without_instance"] = len(missing)
    chk.cov["points_per_law"] = npts
    chk.cov["skipped_slow"] = slow
    if slow > 0.3 * len(cases):
        chk.violation("more than 30%% of the evaluations do not end within 2 s", slow=slow, of=len(cases))
    chk.assumptions.append("laws are compared at random points to 1e-9 (1e-6 where real and complex quadratures differ)")


def z_of(e, pt, emb):
    return abs(p2node(e["to"], pt, emb))


def near(u, v, e, p2):
    """Two quadratures of one inverse dressing: the absolute tolerance decides."""
    if e["from"]["s"]["obj"] == "inv":
        a, b = complex(u), complex(v)
    else:
        a, b = 1 / complex(u), 1 / complex(v)
        if e["from"]["s"]["obj"] == "pr":
            a, b = a / p2, b / p2
    itol = 1e-8 if e["from"]["s"]["reg"] == "zm" else 1e-10
    return abs(a - b) <= 400 * itol * PREF / p2 * 6
