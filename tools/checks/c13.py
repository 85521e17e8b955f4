"""C13: the exact values of Distributions.tla and Kinematics.tla against the real functions."""
import cmath
from api import *

T = "common::thermal::"
L = "low_level::common::statistic_distribution_exponential"


def gr(x):
    return None if x["d"] == 0 else complex(x["re"] / x["d"], x["im"] / x["d"])


def main(chk):
    build()
    r = tlc("Distributions", "DistributionsT" if THOROUGH else "Distributions", workers=4)
    rk = tlc("Kinematics")
    for x, n in ((r, "Distributions"), (rk, "Kinematics")):
        if not x.ok:
            raise ToolError(n + ": " + x.error)
        chk.add_tlc(x, n)
    rng = chk.rng
    cases = []          # (function, args, expected, rel, abs, label)
    reps = 6 if THOROUGH else 2

    def want(fn, args, exp, what, rel=1e-11, abs_=1e-14):
        cases.append((fn, args, exp, what, rel, abs_))

    for s in r.lines:
        v = {k: gr(x) for k, x in s["v"].items()}
        lim = gr(s["lim"]).real
        for _ in range(reps):
            u = math.exp(rng.uniform(-3, 3))
            beta = s["b"] * math.log(2) / u
            turn = math.pi / 2 / beta
            e, mu = s["e"] * u, s["mu"] * u
            eC = complex(e, (s["j"] + 4 * rng.choice([0, 0, -1])) * turn)
            muC = complex(mu, s["l"] * turn)
            forms = [("CC", eC, muC)]
            if s["l"] == 0:
                forms.append(("CR", eC, mu))
                if s["j"] == 0:
                    forms.append(("RR", e, mu))
            for ty, ee, mm in forms:
                want(L + "#" + ty, [ee, beta, mm], v["ex"], "exponential")
                for name, k in (("fermi_distribution", "f"), ("fermi_distribution_double", "fd"), ("bose_distribution", "b")):
                    if v[k] is not None:
                        want(T + name + "#" + ty, [ee, beta, mm], v[k], name)
                for name, k in (("fermi_distribution_zero_temp", "fz"), ("fermi_distribution_double_zero_temp", "fdz")):
                    want(T + name + "#" + ty, [ee, mm], v[k], name, 0)
                # deep in the cold the finite-temperature forms are steps
                if s["e"] != s["mu"]:
                    cold = beta * 2 ** 13
                    want(T + "fermi_distribution#" + ty, [ee, cold, mm], lim, "cold fermi_distribution", 0, 1e-200)
                    want(T + "bose_distribution#" + ty, [ee, cold, mm], -lim, "cold bose_distribution", 0, 1e-200)
                elif ty == "RR":
                    want(T + "fermi_distribution#RR", [ee, beta * 2 ** 13, mm], 0.5, "half at the chemical potential")
            for ty, ee in (("C", eC),) + ((("R", e),) if s["j"] == 0 else ()):
                want(L + "_zero_chempot#" + ty, [ee, beta], v["ex0"], "exponential at mu = 0")
                for name, k in (("fermi_distribution_zero_chempot", "f0"), ("bose_distribution_zero_chempot", "b0")):
                    if v[k] is not None:
                        want(T + name + "#" + ty, [ee, beta], v[k], name)
                if s["e"] != 0:
                    st = 0.0 if s["e"] > 0 else 1.0
                    want(T + "fermi_distribution_zero_chempot#" + ty, [ee, beta * 2 ** 13], st, "cold", 0, 1e-200)
                    want(T + "bose_distribution_zero_chempot#" + ty, [ee, beta * 2 ** 13], -st, "cold", 0, 1e-200)
    for s in rk.lines:
        u = math.exp(rng.uniform(-3, 3))
        p, m, e2 = s["p"] * u, complex(s["mr"] * u, s["mi"] * u), complex(*s["e2"]) * u * u
        sg = rng.choice([-1, 1])
        want("common::energy_squared#C", [sg * p, m], e2, "energy_squared", 1e-13, 1e-12 * (p * p + abs(m) ** 2))
        want("common::energy#C", [sg * p, m], cmath.sqrt(e2), "energy", 1e-13, 1e-6 * (p + abs(m)) if abs(e2) < 1e-9 * u * u else 1e-13 * (p + abs(m)))
        if s["mi"] == 0:
            want("common::energy_squared#R", [sg * p, m.real], e2.real, "energy_squared", 1e-13)
            want("common::energy#R", [p, sg * m.real], math.sqrt(e2.real), "energy", 1e-13)
            want(T + "fermi_momentum", [sg * m.real, rng.choice([-1, 1]) * (math.sqrt(e2.real) if p else abs(m))], p, "fermi_momentum", 1e-9,
                 3e-8 * m.real)
            if s["root"] >= 0:
                want("common::energy#R", [float(s["p"]), float(s["mr"])], s["root"], "pythagorean energy", 0)
                want(T + "fermi_momentum", [float(s["mr"]), float(s["root"])], s["p"], "pythagorean momentum", 0)
    vals = evaluate([(f, a) for f, a, *_ in cases])
    for f, a, exp, what, rel, abs_ in cases:
        got = vals[key((f, a))]
        chk.n += 1
        if isinstance(got, Err) or not close(got, exp, rel, abs_):
            chk.violation(what, call=call(f, *a), args=[str(x) for x in a], expected=str(exp), got=str(got))
        else:
            chk.nontrivial.add((f, what, str(exp)))
            chk.sample(dict(function=f, args=[str(x) for x in a], expected=str(exp), got=str(got)))
    irregular(chk)
    # bounds and monotonicity on finer, irregular energies
    seqs = []
    for _ in range(600 if THOROUGH else 120):
        beta, mu = math.exp(rng.uniform(-4, 7)), rng.uniform(-2, 2)
        es = sorted([rng.uniform(-3, 3) for _ in range(12)] + [mu, -mu, mu + 1e-9, mu - 1e-9, 40.0, -40.0])
        seqs.append((beta, mu, es))
    for name, args, hi in (("fermi_distribution#RR", lambda e, b, m: [e, b, m], 1), ("fermi_distribution_zero_temp#RR", lambda e, b, m: [e, m], 1),
                           ("fermi_distribution_double#RR", lambda e, b, m: [e, b, m], 2),
                           ("fermi_distribution_double_zero_temp#RR", lambda e, b, m: [e, m], 2),
                           ("fermi_distribution_zero_chempot#R", lambda e, b, m: [e, b], 1)):
        allc = [(T + name, args(e, b, m)) for b, m, es in seqs for e in es]
        vals = evaluate(allc)
        for b, m, es in seqs:
            prev = None
            for e in es:
                got = vals[key((T + name, args(e, b, m)))]
                chk.n += 1
                bad = isinstance(got, Err) or not (0 <= got <= hi) or (prev is not None and got > prev + 4e-16)
                if bad:
                    chk.violation("bounds or monotonicity", call=call(T + name, *args(e, b, m)), energy=e, beta=b, mu=m,
                                  got=str(got), at_lower_energy=str(prev))
                else:
                    prev = got
    chk.traces = len(cases)


def irregular(chk):
    """The values of the specification (the inverse of the exponential plus or minus one, its two-sided sums, its steps) and
    the walks over its transitions, at energies, temperatures and chemical potentials of any size."""
    rng = chk.rng
    u = lambda a, b: math.exp(rng.uniform(math.log(a), math.log(b)))
    sgn = lambda: rng.choice([-1, 1])
    eps = 2.0 ** -50
    cases = []

    def add(fn, args, x, kind):
        """kind: how the value follows from the exponentials of the x (one, or two for the two-sided forms)"""
        val, tol = 0, 0.0
        for xx, size in x:
            dx = eps * (1 + size)
            if kind == "ex":
                if xx.real > 700:
                    return
                v = cmath.exp(xx)
                t = dx * abs(v)
            else:
                sg = 1 if kind == "f" else -1
                d = cmath.exp(-abs(xx.real) + 1j * (-xx.imag if xx.real > 0 else xx.imag))     # of modulus at most one
                if abs(1 + sg * d) < 1e-9 + 1e5 * dx:
                    return
                v = (d if xx.real > 0 else sg) / (1 + sg * d)
                if kind == "b" and xx.real > 0:
                    v = d / (1 - d)
                elif kind == "b":
                    v = -1 / (1 - d)
                t = dx * abs(v) * (1 + 1 / abs(1 + sg * d))
            val += v
            tol += t
        cases.append((fn, args, val, tol + 1e-290, kind))

    for _ in range(1500 if THOROUGH else 300):
        k = rng.choice([1, u(1e-6, 1e6)])
        beta = rng.choice([u(1e-9, 1e9), u(0.1, 10)]) / k
        e = k * rng.choice([u(1e-9, 1e9), u(0.1, 10)]) * sgn()
        mu = rng.choice([0.0, k * u(1e-3, 1e3) * sgn(), e * (1 + u(1e-12, 1) * sgn()), -e * u(0.5, 2), e])
        ths = [rng.uniform(-40, 40), rng.uniform(-3, 3), u(1e-8, 1) * sgn()]
        eC, muC = complex(e, rng.choice(ths) / beta), complex(mu, rng.choice(ths + [0.0]) / beta)
        for ty, ee, mm in (("RR", e, mu), ("CR", eC, mu), ("CC", eC, muC)):
            walk = [(ee, beta, mm), (-ee, beta, -mm), (ee, beta, -mm), (ee, beta, 0 * mm)]       # reflect, antiparticle, neutral
            walk += [(ee / 2, 2 * beta, mm / 2), (ee + e, beta, mm + e)]                          # rescale, shift
            for a, b, m in walk:
                size = b * (abs(a) + abs(m))
                x, xp = (complex(b * (a - m)), size), (complex(b * (a + m)), size)
                add(L + "#" + ty, [a, b, m], [x], "ex")
                add(T + "fermi_distribution#" + ty, [a, b, m], [x], "f")
                add(T + "bose_distribution#" + ty, [a, b, m], [x], "b")
                add(T + "fermi_distribution_double#" + ty, [a, b, m], [x, xp], "f")
                st = lambda y: 0.0 if y > 0 else 1.0
                ra, rm = complex(a).real, complex(m).real
                cases.append((T + "fermi_distribution_zero_temp#" + ty, [a, m], st(ra - rm), 0.0, "step"))
                cases.append((T + "fermi_distribution_double_zero_temp#" + ty, [a, m], st(ra - rm) + st(ra + rm), 0.0, "step"))
                if m == 0 and ty != "CC":
                    add(L + "_zero_chempot#" + ty[0], [a, b], [x], "ex")
                    add(T + "fermi_distribution_zero_chempot#" + ty[0], [a, b], [x], "f")
                    add(T + "bose_distribution_zero_chempot#" + ty[0], [a, b], [x], "b")
        m = abs(mu) * u(1e-9, 1)
        if mu:
            size = abs(mu)
            exp = math.sqrt((size - m) * (size + m))
            cases.append((T + "fermi_momentum", [m * sgn(), mu], exp, 1e-13 * exp + (1e-15 * size * size / exp if exp else size), "momentum"))
        q = k * u(1e-6, 1e6)
        en = math.hypot(q, m)
        cases.append(("common::energy#R", [q * sgn(), m * sgn()], en, 1e-14 * en, "energy"))
    vals = evaluate([(f, a) for f, a, *_ in cases])
    for f, a, exp, tol, kind in cases:
        got = vals[key((f, a))]
        chk.n += 1
        if isinstance(got, Err) or not abs(complex(got) - exp) <= tol:
            chk.violation("irregular " + kind, call=call(f, *a), args=[str(x) for x in a], expected=str(exp), got=str(got), tolerance=tol)
    chk.cov["irregular_values"] = len(cases)
