"""C11: every edge of Limits.tla (a function of the library, a restriction, the function it must tend to) on the library."""
import cmath
from api import *
from checks.c14 import neville

L = "low_level::oneloop::thermal::"
CFG = {0: (3, 0.656, [(1, 0.25), (2, 0.8)]), 1: (2, 1.1, [(3, 0.5)]), 2: (3, 0.4, [(1, 0.7), (1, 0.35), (1, 1.2)]),
       5: (3, 0.656, []), 6: (2, 1.1, [(0, 0.5)]), 7: (4, 0.4, [(0, 0.7), (0, 0.35)])}
SETUP = ["new %d %d %s %s" % (i, nc, hx(mg), " ".join("%d:%s" % (n, hx(m)) for n, m in qs)) for i, (nc, mg, qs) in CFG.items()]


def fname(n):
    if n["obj"] not in ("low", "int"):
        return symbol(dict(n, gauge="landau", cross=False))
    b = {"glue": "polarization_glue_%s_" % n["pol"], "quark": "polarization_quark_%s_" % n["pol"], "self": "self_energy_"}[n["fam"]]
    return "%s%s::%s%sthermal_part_%slandau%s" % (L, n["field"], REG_MOD[n["reg"]], b, "zero_temp_" if n["temp"] == "zero" else "",
                                                 "_i" if n["obj"] == "int" else "")


def instance(n, cplx):
    """The instance with a real momentum whose other arguments are complex, or real."""
    best = None
    for v in variants(fname(n)):
        t = dict(zip(*functions()[v]))
        if t.get("p", "R") == "C":
            continue
        k = [t.get(a) for a in ("om", "s", "q")].count("C")
        if best is None or (k > best[0] if cplx else k < best[0]):
            best = (k, v)
    if best is None:
        raise ToolError("the library has no function %s" % fname(n))
    return best[1]


def the_call(n, d, cplx):
    fn = instance(n, cplx)
    d = dict(d)
    m = CFG[d["cfg"]][1] if n["fam"] == "cfg" else d["m"]
    if n["reg"] == "vac":
        om, p = d["om"], d["p"]
        d["s"] = {"gen": om * om + p * p, "zm": p * p, "zp": om * om}[d["sreg"]] / (d["scale"] ** 2)
        if n["fam"] != "cfg":
            d["mq"] = d["mq"] / d["scale"]
    out = []
    for a, t in zip(*functions()[fn]):
        v = "F:%d" % d["cfg"] if t == "F" else d[a]
        out.append(complex(v) if t == "C" else v)
    return fn, out


def complexable(n):
    """Does a function take complex frequencies (or have none)?"""
    t = dict(zip(*functions()[instance(n, True)]))
    return all(t.get(a, "C") == "C" for a in ("om", "s"))


def factor(n, t, d):
    """The vacuum propagator is in units of the gluon mass."""
    return 1 / d["scale"] ** 2 if t["reg"] == "vac" and n["reg"] != "vac" and n["obj"] == "pr" else 1


def quadrature(n, t, d, v):
    """What the absolute tolerance of the integrals allows to the value."""
    if n["obj"] == "int":
        return 0.0
    itol = 4e-6 if "zm" in (n["reg"], t["reg"]) else 4e-9
    if n["obj"] == "low":
        return itol
    om, p = d["om"], d["p"]
    reg = t["reg"] if t["reg"] in REG_MOD else d["sreg"]
    sdim = abs({"gen": om * om + p * p, "zm": p * p, "zp": om * om}[reg])
    s = itol * PREF / sdim * (1 + (sum(k for k, _ in CFG[d["cfg"]][2]) / 3 if n["fam"] == "cfg" else 1 / 3))
    return s * {"inv": 1.0, "dr": abs(v) ** 2, "pr": abs(v) ** 2 * sdim}[n["obj"]]


def point(rng, below, cfg, cplx):
    u = lambda a, b: math.exp(rng.uniform(math.log(a), math.log(b)))
    d = dict(om=u(0.3, 2), p=u(0.3, 2), m=u(0.3, 1.5), mq=u(0.2, 1.5), beta=u(0.5, 30), q=u(0.05, 4),
             f0=rng.uniform(-2, 2), g0=rng.uniform(-1, 2), cfg=cfg)
    light = min([d["mq"]] + [m for _, m in CFG[cfg][2]])
    heavy = max([d["mq"]] + [m for _, m in CFG[cfg][2]])
    if below:
        d["mu"] = rng.choice([0.0, light * rng.uniform(0, 0.9), -light * rng.uniform(0, 0.9)])
        d["gap"] = light - abs(d["mu"])
    else:
        # above all the quark masses, between them
        d["mu"] = rng.choice([-1, 1]) * rng.choice([heavy * rng.uniform(1.15, 2), (light + d["mq"]) / 2 + 0.013])
        d["gap"] = min(abs(abs(d["mu"]) - m) for m in [d["mq"]] + [m for _, m in CFG[cfg][2]])
    if cplx:
        d["om"] = d["om"] * cmath.exp(1j * rng.uniform(-0.5, 0.5))
    return d


def sources(l, d, rng, cplx):
    """[(extrapolation variable, arguments of the source)] or None where the limit says nothing."""
    n, r = l["from"], l["r"]
    if n["obj"] == "int":
        sing = min(abs(d["p"] / 2 - d["q"]), abs(abs(d["p"] ** 2 - d["m"] ** 2) / (2 * d["p"]) - d["q"]), abs((d["p"] ** 2 + d["m"] ** 2) / (2 * d["p"]) - d["q"]))
        if r == "om":
            if sing < 0.03 or d["q"] < 0.02:
                return None
            h = 1e-3 * min(1, sing, d["q"])
            return [(h / 2 ** k, dict(d, om=d["om"] / abs(d["om"]) * h / 2 ** k)) for k in range(3)]
        if r == "p":
            om = abs(d["om"])
            h = 0.25 * min(om, om * math.sqrt(om * om + 4 * d["q"] ** 2) / (2 * d["q"]))
            return [((h / 1.3 ** k) ** 2, dict(d, p=h / 1.3 ** k)) for k in range(5)]
        if r == "T":
            mass = d["mq"] if n["fam"] == "quark" else 0.0
            e = math.sqrt(d["q"] ** 2 + mass ** 2)
            gap = abs(e - abs(d["mu"])) if n["fam"] == "quark" else d["q"]
            if gap < 1e-3:
                return None
            return [(0.0, dict(d, beta=rng.choice([1, 2, 20]) * 60 / gap))]
        return [(0.0, d)]
    if r == "om":
        return [(h, dict(d, om=d["om"] / abs(d["om"]) * h)) for h in (2e-5, 1e-5)]
    if r == "p":
        h = 0.25 * abs(d["om"])
        return [((h / 1.3 ** k) ** 2, dict(d, p=h / 1.3 ** k)) for k in range(5)]
    if r == "T":
        b = math.exp(rng.uniform(math.log(40), math.log(400))) / min(d["gap"], d["m"], abs(d["om"]), d["p"])
        return [(1 / b, dict(d, beta=b)), (0.5 / b, dict(d, beta=2 * b))]
    return [(0.0, d)]


def case(l, d, rng, cplx):
    n, t, r = l["from"], l["to"], l["r"]
    src = sources(l, d, rng, cplx)
    if src is None:
        return None
    s = [(x, the_call(n, y, cplx)) for x, y in src]
    tgt = None if t["reg"] == "nil" else the_call(t, d, cplx)
    ref = None
    if n["temp"] == "fin" and (n["obj"] == "int" or t["reg"] == "nil") and r == "T":
        ref = the_call(n, dict(d, beta=1.0), cplx)
    if t["reg"] == "nil" and n["temp"] == "zero":
        ref = the_call(n, dict(d, mu=2.0 + d["mq"]), cplx)
    return l, d, s, tgt, ref, factor(n, t, d), cplx


def without_quarks(l):
    """Is the source asked with no flavors in the settings?"""
    return l["r"] == "nf" and l["from"]["fam"] == "qcd"


def judge(chk, cases):
    """The cases that fail, each with what there is to say about it."""
    vals = evaluate([x for c in cases if not without_quarks(c[0]) for _, x in c[2]] + [c[3] for c in cases if c[3]] + [c[4] for c in cases if c[4]],
                    timeout=30, setup=SETUP)
    vals0 = evaluate([x for c in cases if without_quarks(c[0]) for _, x in c[2]], timeout=30, setup=SETUP + ["set nf 0"])
    worst = chk.cov.setdefault("worst_error", {})
    failed = []
    for c in cases:
        l, d, src, tgt, ref, fac, _ = c
        n, t, r = l["from"], l["to"], l["r"]
        chk.n += 1
        tab = vals0 if without_quarks(l) else vals
        ys = [tab[key(y)] for _, y in src]
        info = dict(limit=r, of=call(src[-1][1][0], *src[-1][1][1]), values=[str(y) for y in ys], to=call(tgt[0], *tgt[1]) if tgt else "zero",
                    point=str(d), reached_after=l["rs"])
        v = 0j if tgt is None else vals[key(tgt)]
        if isinstance(v, Err) or any(isinstance(y, Err) for y in ys):
            failed.append((c, dict(info, limit_value="none", target_value=str(v))))
            continue
        v = complex(v) * fac
        ys = [complex(y) for y in ys]
        xs = [x for x, _ in src]
        e, noise = ys[-1], abs(ys[-1] - ys[0])
        if r == "p" or n["obj"] == "int" and r == "om":
            e = neville(xs, ys)
            noise = max(abs(e - neville(xs[:-1], ys[:-1])), abs(e - neville(xs[1:], ys[1:])))
        scale = max(abs(v), abs(complex(vals[key(ref)])) if ref else 0.0)
        kind = ("int " if n["obj"] == "int" else "") + r
        tol = TOL[kind] if kind in TOL else TOL[r]
        bad = e != e or abs(e) == math.inf or v != v
        err = abs(e - v)
        if not bad and 4 * noise > 0.05 * scale and err <= 10 * noise:
            chk.count("undetermined")
        elif bad or err > tol * scale + 4 * noise + quadrature(n, t, d, v) + 1e-250:
            failed.append((c, dict(info, limit_value=str(e), target_value=str(v), error=err, noise=noise, scale=scale)))
        else:
            worst[kind] = max(worst.get(kind, 0), err / max(scale, 1e-300))
            chk.nontrivial.add(json.dumps([n, t, r], sort_keys=True))
            chk.sample(dict(limit=r, of=info["of"], value=str(e), to=info["to"], target=str(v)))
    return failed


def main(chk):
    build()
    r = tlc("Limits")
    if not r.ok:
        raise ToolError("Limits.tla: " + r.error)
    chk.add_tlc(r, "Limits (exhaustive)")
    edges = {}
    for l in r.lines:
        below = "mu" in l["rs"]
        if l["from"] != l["to"]:
            edges.setdefault(json.dumps([l["from"], l["to"], l["r"], below], sort_keys=True), l)
    edges = list(edges.values())
    chk.cov["edges"] = len(edges)
    cases = []
    for l in edges:
        n, t, r = l["from"], l["to"], l["r"]
        integrand = n["obj"] == "int"
        N = ((5000 if THOROUGH else 200) if integrand else (400 if THOROUGH else 8) if r in ("mu", "nf", "pol") else (240 if THOROUGH else 6))
        for i in range(N):
            below = "mu" in l["rs"] or r == "mu"
            cplx = i % 2 == 1 and complexable(n) and (t["reg"] == "nil" or complexable(t))
            cfg = chk.rng.choice([0, 1, 2])
            d = point(chk.rng, below, cfg, cplx)
            d["scale"] = CFG[cfg][1] if n["fam"] == "cfg" else d["m"]
            d["sreg"] = n["reg"] if n["reg"] in REG_MOD else "gen"
            if r == "mu" and chk.rng.random() < 0.5:
                # up to the very edge of the region
                light = min([d["mq"]] + [m for _, m in CFG[cfg][2]]) if n["fam"] == "cfg" else d["mq"]
                d["mu"] = chk.rng.choice([-1, 1]) * chk.rng.choice([light, light * (1 - 1e-9), light * 0.999])
            if r == "nf" and n["fam"] == "cfg":
                d["cfg"] = chk.rng.choice([5, 6, 7])
                d["m"] = d["scale"] = CFG[d["cfg"]][1]
            if n["fam"] == "cfg" and t["fam"] != "cfg":
                d["m"] = d["scale"]
            c = case(l, d, chk.rng, cplx)
            if c:
                cases.append(c)
    failed = judge(chk, cases)
    # A quadrature that is satisfied too early, having missed a narrow structure, is wrong at isolated points only: what counts
    # is whether the limit fails in the neighbourhood as well.
    again, where = [], []
    for k, (c, _) in enumerate(failed):
        l, d, cplx = c[0], c[1], c[6]
        if l["r"] in ("om", "p", "T") and l["from"]["obj"] != "int":
            for s in (-3e-3, -1e-3, 1e-3, 3e-3):
                e = dict(d, p=d["p"] * (1 + s), om=d["om"] * (1 - s / 2), beta=d["beta"] * (1 + s / 3))
                again.append(case(l, e, chk.rng, cplx))
                where.append(k)
    bad = {}
    still = [id(c) for c, _ in judge(chk, again)]
    for k, c in zip(where, again):
        bad[k] = bad.get(k, 0) + (id(c) in still)
    for k, (_, info) in enumerate(failed):
        if bad.get(k, 4) <= 1:
            chk.count("isolated_quadrature_failures")
            chk.cov.setdefault("isolated", []).append(dict(of=info["of"], to=info["to"], limit=info["limit_value"], value=info["target_value"]))
        else:
            chk.violation("a limit is not the dedicated function", **info)
    chk.traces = len(chk.nontrivial)
    chk.assumptions.append("limits are taken at random points: frequency 1e-5 (same order as the regulator of the vanishing-frequency functions), "
                           "momentum by extrapolation, temperature at two values some hundred times below every scale; relative tolerances %s plus "
                           "what the sequence still changes" % TOL)


TOL = {"om": 2e-4, "p": 1e-3, "T": 1e-3, "mu": 1e-10, "nf": 1e-9, "pol": 1e-8, "int om": 1e-4, "int p": 1e-3, "int T": 1e-9, "int mu": 1e-12, "int pol": 1e-11}
