"""C20: every unit change of Units.tla applied to the arguments, configurations and settings of every function."""
import cmath
import copy
import re
from api import *
from checks.c12 import heavy, noisy

CFGS = [(5, [(2, 0.45), (1, 0.8)], 0.7), (3, [(2, 0.35), (1, 0.35), (0, 0.9)], 0.656)]
REG, TOL = 1e-5, 1e-10
BIG = 64.0


def quantity(fn):
    """The quantity of the specification a function computes."""
    n = fn.split("#")[0]
    b = n.split("::")[-1]
    t = dict(kind="vac", props=1, der=0, proj=False, stage="raw", inv=False)
    proj = bool(re.search(r"_[lt]_", b)) or b in ("tlog_l", "tlog_t")
    if b.startswith("tlog"):
        t.update(kind="log", proj=proj)
    elif re.match(r"(d2?_)?[ij]_", b):
        t.update(kind="loop", props=2 if re.match(r"(d_)?i_", b) else 1, der=2 if b.startswith("d2_") else 1 if b.startswith("d_") else 0, proj=proj)
    elif b.startswith(("polarization", "self_energy")):
        t.update(kind="pol", stage="raw" if b.endswith("_i") else "integral")
    elif "thermal" in n and b.startswith(("dressing", "propagator")):
        t.update(kind="pol", stage=b.split("_")[0], inv="_inv" in b)
    elif b.startswith("charge_density"):
        t["kind"] = "density"
    elif b.startswith("chemical_potential"):
        t["kind"] = "chempot"
    elif b in ("energy", "fermi_momentum"):
        t["kind"] = "energy"
    elif b == "energy_squared":
        t["kind"] = "energy2"
    elif b.startswith(("fermi", "bose", "statistic")):
        t["kind"] = "stat"
    return t


def finite(z):
    return cmath.isfinite(complex(z))


def setup(lam, tol):
    out = ["set reg " + hx(REG * lam)]
    if tol:
        out.append("set tol " + hx(tol))
    for i, (nc, q, mg) in enumerate(CFGS):
        out.append("new %d %d %s %s" % (i, nc, hx(mg * lam), " ".join("%d:%s" % (n, hx(m * lam)) for n, m in q)))
    return out


def scaled(fn, pt, base, dims, e):
    """The arguments in the new units; base ** e[a] is the factor of argument a."""
    names, types = functions()[fn]
    n = fn.split("#")[0]
    out = []
    for a, t in zip(names, types):
        d = dims["ratio"] if a == "mq" and "thermal" not in n else dims.get(a, 0)
        v = pt.arg(a, t, cfg=pt.cfg)
        if t == "I":
            tol, it = 1e-8 if "zero_matsubara" in n else 1e-10, 50
            v = "I:G7K15:%s:%d" % (hx(tol * base ** (e * (3 if "::quark::" in n else 2))), it)
        elif t != "F" and d:
            v = v * base ** (e * d)
        out.append(v)
    return out


def agree(f, u, v, d, args):
    """Two values of an integral agree to its tolerance, the second one in units in which it is d times as big."""
    if isinstance(u, Err) or isinstance(v, Err):
        return isinstance(u, Err) and isinstance(v, Err) and "TIMEOUT" in u + v
    w = complex(v) / d
    return close(w, complex(u), 1e-6) or noisy(f, complex(u), w, complex(u), args)


def nearby(p, rng):
    out = []
    for _ in range(7):
        q = copy.copy(p)
        for a in ("om", "omC", "p", "pC", "m", "beta", "mu", "mq"):
            setattr(q, a, getattr(p, a) * rng.uniform(0.9, 1.1))
        out.append(q)
    return out


def main(chk):
    build()
    r = tlc("Units")
    if not r.ok:
        raise ToolError("Units: " + r.error)
    chk.add_tlc(r, "Units")
    states = {}
    unit = {a: d for l in r.lines if l["k"] == 1 for a, d in l["args"].items()}
    for l in r.lines:
        states.setdefault(json.dumps(l["t"], sort_keys=True), {})[l["k"]] = l["v"]
    dim = {}
    missing = []
    for f in functions():
        s = states.get(json.dumps(quantity(f), sort_keys=True))
        if s is None:
            missing.append(f)
        else:
            dim[f] = s
    if missing:
        raise ToolError("not in the specification: %s" % missing[:5])
    if not all(unit.get(a, 0) == 0 or a in unit for f in functions() for a in functions()[f][0]):
        raise ToolError("arguments without a dimension")
    rng = chk.rng
    light = [f for f in functions() if not heavy(f)]
    integ = [f for f in functions() if heavy(f)]
    pts = [(wide_point, Point)[i % 2](rng) for i in range(400 if THOROUGH else 80)]
    for i, p in enumerate(pts):
        p.cfg = i % len(CFGS)
        if i % 6 == 5:
            p.mu = -(p.mq * 1.6)
    hpts = [Point(rng) for _ in range(40 if THOROUGH else 10)]
    for i, p in enumerate(hpts):
        p.cfg = i % len(CFGS)
        p.beta = max(p.beta, 0.7)
        p.mu = [p.mq * 1.6, 0.3 * p.mq][i % 2]
        p.pC = complex(p.p, math.copysign(min(abs(p.pC.imag), 0.1 * p.om), p.pC.imag))       # off the singularities of the integrand
        p.omC = complex(p.om, math.copysign(min(abs(p.omC.imag), 0.1 * p.om), p.omC.imag))
        p.n = math.copysign(max(abs(p.n), 0.1), p.n)
    ks = sorted({l["k"] for l in r.lines} - {0})

    def fail(f, x, y, k, b, u, v, exp, su):
        chk.violation("the value depends on the units", function=f, unit="%s ** %d" % (b, k), base=call(x[0], *x[1]), base_value=str(u),
                      rescaled=call(y[0], *y[1]), value=str(v), expected=str(exp), setup=su)

    # --- closed forms: exact when the unit is a power of two; judged by their noise otherwise
    n_exact = 0
    for base, exact in ((2.0, True), (2.0 ** 7, True), (1 / 0.1973269804, False), (1000.0, False)):
        use = pts if exact else pts[::4]
        ref = evaluate([(f, scaled(f, p, base, unit, 0)) for f in light for p in use], setup=setup(1.0, None))
        for k in ks:
            if not exact and abs(k) != 1:
                continue
            su = setup(base ** k, None)
            new = evaluate([(f, scaled(f, p, base, unit, k)) for f in light for p in use], setup=su)
            bad = []
            for f in light:
                for p in use:
                    x, y = (f, scaled(f, p, base, unit, 0)), (f, scaled(f, p, base, unit, k))
                    u, v = ref[key(x)], new[key(y)]
                    chk.n += 1
                    if isinstance(u, Err) or isinstance(v, Err):
                        fail(f, x, y, k, base, u, v, u, su)
                        continue
                    exp = complex(u) * base ** dim[f][k]
                    if exact:
                        n_exact += 1
                        ok = close(complex(v), exp, 1e-12, 1e-270)
                    else:
                        ok = close(complex(v), exp, 1e-9)
                    if not finite(u) and not finite(v):        # no such value in any units
                        ok = True
                    elif max(abs(complex(u)), abs(complex(v)), abs(exp)) < 1e-250:      # few digits are left of such values
                        ok = True
                    elif not ok and finite(u) and finite(v):
                        bad.append((f, x, y, u, v, exp))
                        continue
                    if ok:
                        chk.nontrivial.add((f, base, k))
                    else:
                        fail(f, x, y, k, base, u, v, exp, su)
            if bad:
                nx = noises([b[1] for b in bad], rng, setup(1.0, None))
                ny = noises([b[2] for b in bad], rng, su)
                for f, x, y, u, v, exp in bad:
                    if not abs(complex(v) - exp) <= 100 * (nx[key(x)] * base ** dim[f][k] + ny[key(y)]) + 1e-9 * abs(exp):
                        fail(f, x, y, k, base, u, v, exp, su)
                chk.count("judged_by_their_noise", len(bad))
    # --- integrals: their tolerance changes with the units as well, and is all they agree to
    slow = n_heavy = 0
    ref = evaluate([(f, scaled(f, p, 2.0, unit, 0)) for f in integ for p in hpts], timeout=3, setup=setup(1.0, None))
    for base, k in [(2.0, k) for k in (ks if THOROUGH else [ks[0], -1, 1, ks[-1]])] + [(BIG, k) for k in ([-1, 1, 2] if THOROUGH else [-1, 1])]:
        lam = base ** k
        for td in (2, 3):
            mine = [f for f in integ if ("::quark::" in f) == (td == 3)]
            su = setup(lam, TOL * lam ** td)
            new = evaluate([(f, scaled(f, p, base, unit, k)) for f in mine for p in hpts], timeout=3, setup=su)
            suspects = []
            for f in mine:
                for p in hpts:
                    x, y = (f, scaled(f, p, 2.0, unit, 0)), (f, scaled(f, p, base, unit, k))
                    u, v = ref[key(x)], new[key(y)]
                    if any(isinstance(z, Err) and z.startswith("TIMEOUT") for z in (u, v)):
                        slow += 1
                        continue
                    chk.n += 1
                    n_heavy += 1
                    if agree(f, u, v, lam ** dim[f][1], x[1]):
                        chk.nontrivial.add((f, base, k))
                    else:
                        suspects.append((f, p, x, y, u, v))
            if not suspects:
                continue
            # A quadrature may end early at one point and in one unit.  A dependence on the units is there at the points around as well.
            near = [(i, f, q) for i, (f, p, *_) in enumerate(suspects) for q in nearby(p, rng)]
            u = evaluate([(f, scaled(f, q, 2.0, unit, 0)) for _, f, q in near], timeout=3, setup=setup(1.0, None))
            v = evaluate([(f, scaled(f, q, base, unit, k)) for _, f, q in near], timeout=3, setup=su)
            for i, (f, p, x, y, uu, vv) in enumerate(suspects):
                res = []
                for j, g, q in near:
                    if i == j:
                        xq, yq = (f, scaled(f, q, 2.0, unit, 0)), (f, scaled(f, q, base, unit, k))
                        res.append(agree(f, u[key(xq)], v[key(yq)], lam ** dim[f][1], xq[1]))
                if res.count(False) > len(res) // 2:
                    fail(f, x, y, k, base, uu, vv, uu, su)
                else:
                    chk.count("quadratures_that_ended_early")
    chk.traces = n_exact + n_heavy
    chk.cov.update(functions=len(dim), closed_forms=len(light), integrals=len(integ), exact_comparisons=n_exact, integral_comparisons=n_heavy,
                   skipped_slow=slow, units=len(ks))
    if slow > 0.2 * (n_heavy + slow):
        chk.violation("more than 20%% of the integrals do not end within 3 s", slow=slow, of=n_heavy + slow)
