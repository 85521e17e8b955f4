"""C09: every law printed by Density.tla, evaluated on the real densities; behaviours of the model in one process."""
from api import *

T = "qcd::thermal::quark::"
PI = math.pi
Q3 = 3 * PI * PI


def exact(q, u):
    """The value the model gives a query at scale u, or None."""
    v = q["v"]
    if v["k"] == "free":
        return None
    x = v["x"] if v["k"] == "int" else math.copysign(abs(v["x"]) ** 1.5, v["x"])
    return q["nc"] * x * u ** 3 / Q3


def query(q, u):
    if q["t"] == 0:
        return T + "charge_density_zero_temp", [q["m"] * u, q["mu"] * u]
    return T + "charge_density", [q["m"] * u, PI / (q["t"] * u), q["mu"] * u]


def inverse(q, u, n):
    if q["t"] == 0:
        return T + "chemical_potential_zero_temp", [q["m"] * u, n]
    return T + "chemical_potential", [q["m"] * u, PI / (q["t"] * u), n]


def ask(q, u):
    f, a = query(q, u)
    return call(f, *a)


def umax(q):
    """The largest scale at which the query and its neighbours stay in the domain."""
    c = [10 / max(1, abs(q["m"]))]
    mu, t = abs(q["mu"]) + 1, max(q["t"], 1)
    c.append((1000 * Q3 / (q["nc"] * (mu ** 3 + t * t * mu))) ** (1 / 3))
    c.append(100 * PI / t)
    return min(c)


def slack(nc, *v):
    return 3e-9 + 1e-11 * max(abs(x) for x in v)


def law(chk, op, a, b, na, nb, **info):
    """Does the law hold between the values of two queries?"""
    chk.n += 1
    bad = None
    if isinstance(na, Err) or isinstance(nb, Err) or not (math.isfinite(na) and math.isfinite(nb)):
        bad = "no value"
    else:
        s = slack(max(a["nc"], b["nc"]), na, nb)
        if op == "odd" and abs(na + nb) > s:
            bad = "the density is not odd"
        elif op == "even" and abs(na - nb) > s:
            bad = "the density depends on the sign of the mass"
        elif op == "rise" and nb < na - s:
            bad = "the density decreases with the chemical potential"
        elif op == "colors" and abs(na * b["nc"] - nb * a["nc"]) > s * (a["nc"] + b["nc"]):
            bad = "the density is not proportional to the number of colors"
        elif op == "heat" and abs(nb) < abs(na) - s:
            bad = "the density decreases with the temperature"
        elif op == "freeze" and abs(na) < abs(nb) - s:
            bad = "the density at zero temperature is above the one at finite temperature"
        elif op == "lighten" and abs(nb) < abs(na) - s:
            bad = "the density increases with the mass"
    if bad:
        chk.violation(bad, first=a, second=b, values=[str(na), str(nb)], **info)
    else:
        chk.nontrivial.add((op, json.dumps(a), json.dumps(b)))
    return not bad


def value(chk, q, u, n, **info):
    chk.n += 1
    e = exact(q, u)
    if isinstance(n, Err) or e is not None and abs(n - e) > slack(q["nc"], e) or q["mu"] == 0 and n != 0:
        chk.violation("the density differs from its exact value", query=q, scale=u, expected=e, got=str(n), call=ask(q, u), **info)
        return False
    return True


def sphere(q, u, n):
    """The rounding error of a zero-temperature density, which goes through k^2 = mu^2 - m^2."""
    k2 = (Q3 * abs(n) / q["nc"]) ** (2 / 3)
    return abs(n) * (1e-12 + 4e-15 * (q["m"] * u) ** 2 / k2)


def solved(chk, q, u, n, mu, back, tol=2e-10, **info):
    """mu is what the library returned for density n, back the density there."""
    chk.n += 1
    bad = None
    if isinstance(mu, Err) or isinstance(back, Err) or mu != mu:
        bad = "no chemical potential found"
    elif n == 0:
        bad = None if mu == 0 else "a chemical potential at zero density"
    elif (mu > 0) != (n > 0) and abs(n) > 2 * tol:
        bad = "the chemical potential has the wrong sign"
    elif abs(back - n) > (tol + 1e-13 * abs(n) if q["t"] else sphere(q, u, n)):
        bad = "the density at the returned chemical potential differs from the requested one"
    if bad:
        chk.violation(bad, query=q, scale=u, density=n, got=str(mu), density_there=str(back), call=call(inverse(q, u, n)[0], *inverse(q, u, n)[1]), **info)
    else:
        chk.nontrivial.add(("inverse", json.dumps(q)))
    return not bad


def by_colors(items, nc_of, line_of, workers=7):
    """Answers of calls that need different numbers of colors, with few changes of the setting."""
    order = sorted(range(len(items)), key=lambda i: nc_of(items[i]))
    out = [None] * len(items)

    def one(k):
        mine = order[k * len(order) // workers:(k + 1) * len(order) // workers]
        h = Harness(timeout=8)
        try:
            for nc in sorted({nc_of(items[i]) for i in mine}):
                h.prologue = ["set nc %d" % nc]     # repeated should the process have to be restarted
                h.cmds(h.prologue)
                now = [i for i in mine if nc_of(items[i]) == nc]
                for i, a in zip(now, h.cmds([line_of(items[i]) for i in now])):
                    out[i] = dec(a)
        finally:
            h.close()
    parallel(one, range(workers), workers)
    return out


def main(chk):
    build()
    r = tlc("Density", "DensityT" if THOROUGH else "Density", workers=4)
    w = tlc("Density", "DensityWalk", simulate=400 if THOROUGH else 40, depth=70, seed=SEED)
    for x, n in ((r, "Density"), (w, "DensityWalk")):
        if not x.ok:
            raise ToolError(n + ": " + x.error)
        chk.add_tlc(x, n)
    rng = chk.rng
    edges(chk, rng, r.lines)
    walks(chk, rng, w.lines)
    cold(chk, rng)
    domain(chk, rng)


def scale(rng, *qs):
    hi = min(umax(q) for q in qs)
    lo = min(hi, max([0.02] + [PI / (300 * q["t"]) for q in qs if q["t"]]))
    return math.exp(rng.uniform(math.log(lo), math.log(hi)))


def edges(chk, rng, es):
    work, need = [], {}
    if THOROUGH:
        es = rng.sample(es, min(len(es), 16000))
    for e in es:
        # a few scales only, so that neighbouring laws share their values
        u = min(umax(e["a"]), umax(e["b"])) * 2.0 ** -rng.randrange(3)
        u = 2.0 ** math.floor(math.log2(u)) * (1.37 if rng.random() < 0.5 else 1)
        u = min(u, umax(e["a"]), umax(e["b"]))
        for q in (e["a"], e["b"]):
            need[json.dumps([q, u])] = (q, u)
        work.append((e, u))
    items = list(need.values())
    vals = by_colors(items, lambda x: x[0]["nc"], lambda x: ask(*x))
    n = {k: v for k, v in zip(need, vals)}
    for (q, u), v in zip(items, vals):
        value(chk, q, u, v)
    chk.cov["laws"] = len(work)
    inv = []
    for e, u in work:
        na, nb = (n[json.dumps([q, u])] for q in (e["a"], e["b"]))
        if law(chk, e["op"], e["a"], e["b"], na, nb, scale=u) and e["op"] == "invert":
            inv.append((e["a"], u, na))
    roundtrip(chk, inv)
    chk.traces += len(work)


def roundtrip(chk, inv, **info):
    mus = by_colors(inv, lambda x: x[0]["nc"], lambda x: call(inverse(*x)[0], *inverse(*x)[1]))
    good = [(q, u, n, mu) for (q, u, n), mu in zip(inv, mus)]
    ok = [g for g in good if not isinstance(g[3], Err)]
    for q, u, n, mu in good:
        if isinstance(mu, Err):
            solved(chk, q, u, n, mu, mu, **info)
    back = by_colors(ok, lambda x: x[0]["nc"], lambda x: call(query(x[0], x[1])[0], *(query(x[0], x[1])[1][:-1] + [x[3]])))
    for (q, u, n, mu), b in zip(ok, back):
        if solved(chk, q, u, n, mu, b, **info) and q["t"] == 0 and n != 0:
            chk.n += 1
            if not close(mu, q["mu"] * u, 1e-12):
                chk.violation("the zero-temperature chemical potential is not the inverse of the density", query=q, scale=u, density=n,
                              expected=q["mu"] * u, got=mu)
    chk.count("round_trips", len(good))


def walks(chk, rng, hists):
    """Behaviours of the model, in one process each: earlier queries and settings do not matter."""
    def one(h):
        lines, at = ["set nc %d" % h[0]["a"]["nc"]], []
        u = scale(rng, *[e[x] for e in h for x in "ab"])
        lines.append(ask(h[0]["a"], u))
        for e in h:
            if e["b"]["nc"] != e["a"]["nc"]:
                lines.append("set nc %d" % e["b"]["nc"])
            at.append(len(lines))
            lines.append(ask(e["b"], u))
            if e["op"] == "invert":
                n = rng.choice([1, -1]) * 10 ** rng.uniform(-6, 2)
                lines.append(call(inverse(e["b"], u, n)[0], *inverse(e["b"], u, n)[1]))
                e["n"] = n
        p = Harness(timeout=8)
        a = p.cmds(lines)
        # what the library returned as chemical potentials, evaluated in a process of its own
        p.close()
        return u, lines, at, a
    runs = parallel(one, hists, 7)
    inv = []
    for h, (u, lines, at, a) in zip(hists, runs):
        prev = dec(a[1])
        chk.traces += 1
        for e, i in zip(h, at):
            cur = dec(a[i])
            if not value(chk, e["b"], u, cur, history=lines[:i + 1][-12:]):
                break
            if not law(chk, e["op"], e["a"], e["b"], prev, cur, history=lines[:i + 1][-12:], scale=u):
                break
            prev = cur
            if e["op"] == "invert":
                inv.append((e["b"], u, e["n"], dec(a[i + 1])))
    back = by_colors(inv, lambda x: x[0]["nc"],
                        lambda x: call(query(x[0], x[1])[0], *(query(x[0], x[1])[1][:-1] + [0.0 if isinstance(x[3], Err) else x[3]])))
    for (q, u, n, mu), b in zip(inv, back):
        solved(chk, q, u, n, mu, b, where="in a longer history")


def cold(chk, rng):
    """The finite-temperature density tends to the zero-temperature one."""
    betas = [0.5, 2, 8, 30, 75, 150, 300]
    items = []
    for _ in range(300 if THOROUGH else 40):
        m = rng.choice([0.0, rng.uniform(0, 3), rng.uniform(0.1, 1), 1.0])
        mu = rng.choice([m, m * 1.5, m + 1e-3, m * 0.99, m * 0.5, rng.uniform(0, 4), m + rng.uniform(0, 1)]) * rng.choice([-1, 1])
        items.append((rng.choice([1, 2, 3, 5]), m * rng.choice([1, -1]), mu))
    calls = [(nc, m, mu, b) for nc, m, mu in items for b in betas + [None]]
    vals = by_colors(calls, lambda x: x[0], lambda x: call(T + "charge_density_zero_temp", x[1], x[2]) if x[3] is None
                        else call(T + "charge_density", x[1], x[3], x[2]))
    v = dict(zip(calls, vals))
    for nc, m, mu in items:
        seq = [v[nc, m, mu, b] for b in betas]
        n0 = v[nc, m, mu, None]
        chk.n += len(seq)
        if any(isinstance(x, Err) or x != x for x in seq + [n0]):
            chk.violation("no value", nc=nc, m=m, mu=mu, betas=betas, got=[str(x) for x in seq + [n0]])
            continue
        for b, n in zip(betas, seq):
            t = 1 / b
            room = nc / PI ** 2 * (mu * mu * t * math.log(2) + 2 * abs(mu) * t * t * PI * PI / 6 + 5.42 * t ** 3)
            s = slack(nc, n)
            d = (n - n0) * (1 if mu > 0 else -1)
            if not -s <= d <= room + s:
                chk.violation("the density does not tend to the zero-temperature one", nc=nc, m=m, mu=mu, beta=b, got=n,
                              at_zero_temperature=n0, bound=room)
                break
        if any(abs(b) > abs(a) + slack(nc, a) for a, b in zip(seq, seq[1:])):
            chk.violation("the density decreases with the temperature", nc=nc, m=m, mu=mu, betas=betas, got=seq)
        chk.nontrivial.add(("cold", m, mu))


def domain(chk, rng):
    """The chemical potential is found all over the domain."""
    inv = []
    for k in range(6000 if THOROUGH else 700):
        m = rng.choice([0.0, 10.0, rng.uniform(0, 10), rng.uniform(0, 10), 10 ** rng.uniform(-6, 1), -rng.uniform(0, 10)])
        beta = rng.choice([0.01, 300.0, 10 ** rng.uniform(-2, math.log10(300)), 10 ** rng.uniform(-2, math.log10(300))])
        n = rng.choice([1, -1]) * rng.choice([1000.0, 0.0, rng.uniform(0, 1000), 10 ** rng.uniform(-12, 3), 10 ** rng.uniform(-12, 3)])
        # as a query at scale one: the mass and the temperature are not integers, but nothing else changes
        q = dict(nc=rng.choice([1, 2, 3, 3, 3, 4, 8]), m=m, t=PI / beta if k % 8 else 0, mu=0, v=dict(k="free"))
        inv.append((q, 1.0, n))
    mus = by_colors(inv, lambda x: x[0]["nc"], lambda x: call(inverse(*x)[0], *inverse(*x)[1]))
    ok = [(q, n, mu) for (q, u, n), mu in zip(inv, mus) if not isinstance(mu, Err)]
    for (q, u, n), mu in zip(inv, mus):
        if isinstance(mu, Err):
            solved(chk, q, 1.0, n, mu, mu, where="domain")
    back = by_colors(ok, lambda x: x[0]["nc"], lambda x: call(query(x[0], 1.0)[0], *(query(x[0], 1.0)[1][:-1] + [x[2]])))
    for (q, n, mu), b in zip(ok, back):
        solved(chk, q, 1.0, n, mu, b, where="domain")
    chk.count("round_trips", len(inv))
    chk.sample(dict(query=inv[0][0], density=inv[0][2], chemical_potential=str(mus[0])))
