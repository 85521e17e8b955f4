"""C14: every edge of the lattice of Reductions.tla evaluated on the library: restrictions pointwise, derivatives integrated."""
import cmath
from api import *

L = "low_level::oneloop::thermal::"
MOMENTA = ("om", "p", "m", "m1", "m2", "en", "delta")


def fname(n):
    b = {"gen": "", "zm": "zero_matsubara::", "zp": "zero_momentum::"}[n["reg"]]
    pl = "_" + n["proj"] if n["proj"] else ""
    if n["fam"] == "L":
        return L + b + "tlog" + pl + {"mm": "", "same": "_same_mass", "00": "_zero_mass"}[n["mass"]]
    d = {0: "", 1: "d_", 2: "d2_"}[n["der"]]
    if n["fam"] == "J":
        return L + "%sj_%s%s_i" % (d, {"m0": "m", "00": "0"}[n["mass"]], pl)
    mm = {"mm": "m_m", "same": "m_m", "m0": "m_0", "00": "0_0"}[n["mass"]]
    return L + b + "%si_%s%s_i" % (d, mm, pl) + ("_same_mass" if n["mass"] == "same" else "")


def instance(name, real=True):
    vs = variants(name)
    if not vs:
        raise ToolError("the library has no function %s" % name)
    best = None
    for v in vs:
        ts = [t for a, t in zip(*functions()[v]) if a in MOMENTA]
        k = ts.count("C")
        if best is None or (k < best[0] if real else k > best[0]):
            best = (k, v)
    return best[1]


def args(fn, d):
    return [complex(d[a]) if t == "C" else d[a] for a, t in zip(*functions()[fn])]


def neville(hs, ys):
    """Value at 0 of the polynomial through (h, y)."""
    y = [complex(v) for v in ys]
    for k in range(1, len(y)):
        for i in range(len(y) - k):
            y[i] = (hs[i + k] * y[i] - hs[i] * y[i + 1]) / (hs[i + k] - hs[i])
    return y[0]


def point(rng, cplx):
    u = lambda a, b: math.exp(rng.uniform(math.log(a), math.log(b)))
    d = dict(q=u(0.02, 8), om=u(0.2, 4), p=u(0.2, 4), m=u(0.2, 3), m1=u(0.2, 3), m2=u(0.2, 3), beta=u(0.1, 20))
    if rng.random() < 0.15:
        d["beta"] = u(20, 200) / math.sqrt(d["q"] ** 2 + max(d["m1"], d["m2"], d["m"]) ** 2)
    if cplx:
        # off the real axis of the frequency only: there the logarithms have no cut to cross
        d["om"] = d["om"] * cmath.exp(1j * rng.uniform(-0.5, 0.5))
    if rng.random() < 0.2:
        k = rng.choice(["q", "om", "p", "m", "m1", "m2"])
        d[k] *= u(2, 8) ** rng.choice([-1, 1])
    for k in ("om", "p"):
        if rng.random() < 0.2:
            d[k] = -d[k]
    return d


def singular(d, E):
    """Distance from the points where the denominators of the vanishing-frequency integrands vanish."""
    p, q = abs(d["p"]), d["q"]
    masses = [(d["m"], d["m"]), (d["m1"], d["m2"]), (d["m2"], d["m1"]), (d["m"], 0), (0, d["m"]), (0, 0)]
    if "delta" in d:
        masses = [(0, math.sqrt(abs(d["delta"]))), (math.sqrt(abs(d["delta"])), 0), (0, 0)]
    return min(abs(abs(p * p + b * b - a * a) / (2 * p) - q) for a, b in masses)


def limit_case(l, d, real):
    """(calls of the source with their parameter, call of the target, combination) for one edge at one point."""
    n, t, r = l["from"], l["to"], l["r"]
    fa, fb = instance(fname(n), real), instance(fname(t), real)
    src, db = [], dict(d)
    if r == "om":
        h = 1e-4 * min(1, singular(d, 0))
        if abs(d["q"]) < 1e-3 or singular(d, 0) < 1e-2:
            return None
        ph = d["om"] / abs(d["om"])
        pts = [(h / 2 ** k, dict(d, om=ph * h / 2 ** k)) for k in range(3)]
        if n["fam"] == "L":
            # only the part even in the frequency has a limit that does not depend on its side
            ph = 1
            pts = [(s * x, dict(d, om=s * x)) for x, _ in pts for s in (1, -1)]
        src = pts
    elif r == "p":
        om = abs(d["om"])
        h = 0.25 * min(om, om * math.sqrt(om * om + 4 * d["q"] ** 2) / (2 * d["q"]))
        src = [((h / 1.3 ** k) ** 2, dict(d, p=h / 1.3 ** k)) for k in range(5)]
    elif n["fam"] == "L" and r == "z1":
        h = 1e-3 * d["q"]
        src = [((h / 2 ** k) ** 2, dict(d, en=math.sqrt(d["q"] ** 2 + (h / 2 ** k) ** 2))) for k in range(3)]
    elif n["fam"] == "L":
        src = [(0.0, dict(d, delta=0.0))]
    elif n["mass"] == "mm" and t["mass"] == "same":
        src = [(0.0, dict(d, m1=d["m"], m2=d["m"]))]
        if d.get("near"):
            # the limit, approached from nearby, not only the value at the very point
            h = min(3e-3 * d["m"], 0.01 * d["m"] * d["q"] / (1 + d["q"]), 0.02 * singular(d, 0) * abs(d["p"]) / d["m"])
            src = [(s * h * k, dict(d, m1=d["m"], m2=d["m"] + s * h * k)) for k in (1, 2, 3) for s in (1, -1)]
    else:
        if n["mass"] == "mm":
            keep, gone = ("m1", "m2") if r == "z2" else ("m2", "m1")
            base = dict(d, **{keep: d["m"]})
        else:
            gone, base = "m", d
        h = 1e-3 * min(1, d["q"], 1 / d["beta"])
        src = [((h / 2 ** k) ** 2, dict(base, **{gone: h / 2 ** k})) for k in range(3)]
    return [(x, (fa, args(fa, y))) for x, y in src], (fb, args(fb, db))


def gauss(n):
    """Nodes and weights of the Gauss-Legendre rule on (-1, 1)."""
    out = []
    for i in range(n):
        x = math.cos(math.pi * (i + 0.75) / (n + 0.5))
        for _ in range(100):
            p0, p1 = 1.0, x
            for k in range(2, n + 1):
                p0, p1 = p1, ((2 * k - 1) * x * p1 - (k - 1) * p0) / k
            dp = n * (x * p1 - p0) / (x * x - 1)
            dx = p1 / dp
            x -= dx
            if abs(dx) < 1e-16:
                break
        out.append((x, 2 / ((1 - x * x) * dp * dp)))
    return out


def quadrature(d):
    """Panels that resolve the temperature, the masses and the thresholds."""
    top = 40 / d["beta"] + 3 * max(d["m"], d["m1"], d["m2"])
    marks = {0.0, top}
    k = top
    while k > 1e-4 * min(1, 1 / d["beta"]):
        k /= 2.2
        marks.add(k)
    p = abs(d["p"])
    for a, b in ((d["m"], d["m"]), (d["m1"], d["m2"]), (d["m2"], d["m1"]), (d["m"], 0), (0, d["m"])):
        c = abs(p * p + b * b - a * a) / (2 * p)
        w = max(0.3 * abs(d["om"]), 0.02)
        for s in (-3, -1, 0, 1, 3):
            if 0 < c + s * w < top:
                marks.add(c + s * w)
    marks = sorted(marks)
    G = gauss(16)
    out = []
    for a, b in zip(marks, marks[1:]):
        if b - a < 1e-12:
            continue
        out += [((a + b) / 2 + (b - a) / 2 * x, (b - a) / 2 * w) for x, w in G]
    return out


def derivative_job(h, l, d):
    n, t = l["from"], l["to"]
    fa, fb = instance(fname(n)), instance(fname(t))
    k = "m1" if n["mass"] == "mm" else "m"
    N = quadrature(d)
    hh = min(4e-3 * d[k] ** 2, 0.02 * abs(d["om"]) * (2 * d[k] + abs(d["om"])))
    calls = []
    for s in (-2, -1, 1, 2):
        e = dict(d, **{k: math.sqrt(d[k] ** 2 + s * hh)})
        calls += [[fa] + args(fa, dict(e, q=q)) for q, _ in N]
    calls += [[fb] + args(fb, dict(d, q=q)) for q, _ in N]
    y = h.evs(calls)
    bad = [v for v in y if isinstance(v, Err)]
    if bad:
        return None, None, None, str(bad[0])
    w = [x for _, x in N]
    tot = [sum(complex(v) * x for v, x in zip(y[i * len(N):(i + 1) * len(N)], w)) for i in range(5)]
    scale = sum(abs(complex(v)) * x for v, x in zip(y[4 * len(N):], w))
    scale += 1e-6 * sum(abs(complex(v)) * x for v, x in zip(y[:len(N)], w)) / hh
    der = (8 * (tot[2] - tot[1]) - (tot[3] - tot[0])) / (12 * hh)
    return der, l["w"] * tot[4], scale, ""


def main(chk):
    build()
    r = tlc("Reductions")
    if not r.ok:
        raise ToolError("Reductions.tla: " + r.error)
    chk.add_tlc(r, "Reductions (exhaustive)")
    edges = {}
    for l in r.lines:
        k = (l["kind"], fname(l["from"]), fname(l["to"]), l.get("r"))
        if k[1] != k[2] or l["kind"] == "synonym":
            edges.setdefault(k, l)
    lim = [l for l in edges.values() if l["kind"] == "limit"]
    der = [l for l in edges.values() if l["kind"] == "derivative" and l["from"]["reg"] != "zm"]
    syn = [l for l in edges.values() if l["kind"] == "synonym"]
    covered = {fname(l[k]) for l in edges.values() for k in ("from", "to")} | {fname(l["from"]).replace("d_i_m_0_t", "d_i_m_t_0") for l in syn}
    have = {f.split("#")[0] for f in functions() if f.startswith(L) and not f.startswith((L + "gluon", L + "ghost"))}
    if have - covered:
        raise ToolError("integrands outside the specification: %s" % sorted(have - covered))
    if covered - have:
        raise ToolError("integrands the library does not have: %s" % sorted(covered - have))
    # ---- restrictions
    npts = 2500 if THOROUGH else 150
    cases, calls = [], []
    for i in range(npts):
        d = point(chk.rng, i % 3 == 2)
        d["delta"] = d["m2"] ** 2 - d["m1"] ** 2
        d["en"] = math.sqrt(d["q"] ** 2 + d["m1"] ** 2)
        d["near"] = i % 2 == 1
        # far from there the integrands are differences of huge terms
        d["q"] = max(d["q"], 0.02 * max(d["m"], d["m1"], d["m2"]), 2e-3 / d["beta"])
        d["en"] = math.sqrt(d["q"] ** 2 + d["m1"] ** 2)
        for l in lim:
            # complex arguments where there is an instance for them
            c = limit_case(l, d, i % 3 == 0)
            if c is None or (i % 3 == 2 and not all(isinstance(x, complex) for a, x in zip(functions()[c[1][0]][0], c[1][1]) if a == "om")):
                continue
            if i % 3 == 2 and l["r"] == "om":
                continue
            src, tgt = c
            cases.append((l, d, src, tgt))
            calls += [x[1] for x in src] + [tgt]
    vals = evaluate(calls, timeout=5)
    for l, d, src, tgt in cases:
        chk.n += 1
        ys = [vals[key(c)] for _, c in src]
        v = vals[key(tgt)]
        info = dict(restriction=l["r"], source=call(src[0][1][0], *src[0][1][1]), source_values=[str(y) for y in ys],
                    target=call(tgt[0], *tgt[1]), target_value=str(v), point=str(d))
        if isinstance(v, Err) or any(isinstance(y, Err) for y in ys):
            chk.violation("a one-loop integrand does not evaluate", **info)
            continue
        noise = 0.0
        if l["from"]["fam"] == "L" and l["r"] == "om":
            even = [(complex(ys[k]) + complex(ys[k + 1])) / 2 for k in range(0, len(ys), 2)]
            xs = [x for x, _ in src][::2]
            e = neville(xs, even)
            noise = abs(e - neville(xs[1:], even[1:]))
            size = abs(even[0])
        elif len(src) == 6:
            # nearly equal masses: the even and the odd part separately
            xs = [x for x, _ in src]
            e = neville(xs, ys)
            noise = abs(e - neville(xs[:4], ys[:4]))
            size = max(abs(complex(y)) for y in ys)
        else:
            xs = [x for x, _ in src]
            e = neville(xs, ys) if len(ys) > 1 else complex(ys[0])
            noise = max(abs(e - neville(xs[:-1], ys[:-1])), abs(e - neville(xs[1:], ys[1:]))) if len(ys) > 2 else 0.0
            size = max(abs(complex(y)) for y in ys)
        tol = TOLS[l["r"] if len(src) > 1 else "exact"]
        if any(x != x or math.isinf(x) for x in (complex(v).real, complex(v).imag)) and all(complex(y) != complex(y) or math.isinf(abs(complex(y))) for y in ys):
            continue
        err = abs(e - complex(v)) / max(abs(complex(v)), 1e-300)
        info["error"] = err
        W = chk.cov.setdefault("worst_error", {})
        kk = l["r"] + ("" if len(src) > 1 else " exact")
        if err <= tol:
            W[kk] = max(W.get(kk, 0), err)
        # what the extrapolation itself does not determine is no verdict
        if 6 * noise > 0.02 * max(abs(complex(v)), 1e-3 * size) and abs(e - complex(v)) <= 10 * noise:
            chk.count("undetermined_limits")
            continue
        if abs(e - complex(v)) <= 6 * noise + tol * max(abs(complex(v)), 1e-3 * size) + 1e-250:
            chk.nontrivial.add((src[0][1][0], tgt[0], l["r"]))
            chk.sample(dict(source=info["source"], target=info["target"], value=str(v), error=err))
        else:
            chk.violation("a specialized integrand is not the special case of the general one", **info)
    # ---- synonyms
    for l in syn:
        a, b = fname(l["from"]), fname(l["from"]).replace("d_i_m_0_t", "d_i_m_t_0")
        for va in variants(a):
            vb = b + "#" + va.split("#")[1]
            pts = [point(chk.rng, False) for _ in range(20)]
            res = evaluate([(f, args(f, d)) for d in pts for f in (va, vb)])
            for d in pts:
                chk.n += 1
                u, v = res[key((va, args(va, d)))], res[key((vb, args(vb, d)))]
                if not close(u, v, 1e-12):
                    chk.violation("synonyms differ", first=call(va, *args(va, d)), value=str(u), second=call(vb, *args(vb, d)), other=str(v))
                else:
                    chk.nontrivial.add((va, vb, "synonym"))
    # ---- derivatives
    nd = 500 if THOROUGH else 12
    jobs = []
    for i in range(nd):
        d = point(chk.rng, False)
        d["beta"] = min(d["beta"], 5)
        # far from there the forms are differences of huge terms, and lose digits
        for k in ("om", "p"):
            d[k] = math.copysign(min(max(abs(d[k]), 0.2), 4), d[k])
        if abs(d["om"]) > 6 * abs(d["p"]):
            d["p"] = math.copysign(abs(d["om"]) / 6, d["p"])
        for k in ("m", "m1", "m2"):
            d[k] = min(max(d[k], 0.2), 3)
        if i % 2 == 0:
            # nearly degenerate masses
            d["m2"] = d["m1"] * (1 + chk.rng.choice([-1, 1]) * 10 ** chk.rng.uniform(-4, -1.5))
        jobs += [(l, d) for l in der]

    def one(k):
        h = Harness()
        try:
            return [(j, derivative_job(h, *j)) for j in jobs[k::8]]
        finally:
            h.close()
    t0 = time.time()
    for res in parallel(one, range(8), 8):
        for (l, d), (a, b, scale, err) in res:
            chk.n += 1
            if a is not None and abs(a - b) <= 1e-5 * max(abs(a), abs(b)) + 1e-6 * scale:
                chk.nontrivial.add((fname(l["from"]), fname(l["to"]), "derivative"))
            else:
                chk.violation("a differentiated integrand does not integrate to the derivative", of=fname(l["from"]), form=fname(l["to"]),
                              derivative=str(a), integral_of_form=str(b), scale=scale, error=err, point=str(d))
    chk.traces = len(chk.nontrivial)
    chk.cov["restrictions"], chk.cov["derivative_laws"], chk.cov["functions"] = len(lim), len(der), len(have)
    chk.assumptions.append("limits by polynomial extrapolation at random points (relative %s); derivatives by central differences and composite "
                           "Gauss quadrature (1e-5); at vanishing frequency the derivative laws are principal values, not integrated: they follow "
                           "from the general ones and the limits" % TOLS)


TOLS = {"exact": 1e-7, "eq": 1e-4, "z1": 1e-5, "z2": 1e-5, "om": 1e-4, "p": 1e-3}
