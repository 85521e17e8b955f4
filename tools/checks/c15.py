"""C15: every boundary and every curve of the model, classified by the real helpers."""
from vlib import *


def phase(lines):
    """Answers of the helpers; the library writes to the same stream, answers are marked."""
    n = max(1, min(7, len(lines) // 200))
    from concurrent.futures import ThreadPoolExecutor

    def one(k):
        mine = lines[k::n]
        p = run([EXE, "phase"], inp="\n".join(mine) + "\n", timeout=600)
        a = [l[1:] for l in p.stdout.splitlines() if l.startswith("@")]
        if len(a) != len(mine):
            a.append("DIED rc=%s" % p.returncode)
            a += ["NOT-RUN"] * (len(mine) - len(a))
        return a
    out = [None] * len(lines)
    with ThreadPoolExecutor(n) as ex:
        for k, a in enumerate(ex.map(one, range(n))):
            out[k::n] = a
    return out


def flat(pb):
    return " ".join(hx(x) for p in pb for x in p)


def main(chk):
    build()
    sfx = "T" if THOROUGH else ""
    rb = tlc("PhaseBoundary", "PhaseBoundary" + sfx, workers=4 if THOROUGH else 2)
    rm = tlc("Maximum", "Maximum" + sfx)
    for r, n in ((rb, "PhaseBoundary"), (rm, "Maximum")):
        if not r.ok:
            raise ToolError(n + ": " + r.error)
        chk.add_tlc(r, n)
    rng = chk.rng
    lines, what = [], []

    def add(l, *w):
        lines.append(l)
        what.append(w)

    for b in rb.lines:
        pb = b["pb"]
        chk.count("boundaries")
        # exact scalings (powers of two keep every comparison exact), and one arbitrary one
        for sm, st, off, exact in ((1.0, 1.0, 0.0, True), (2.0 ** rng.randint(-6, 2), 2.0 ** rng.randint(-6, 2), 0.0, True),
                                   (2.0 ** rng.randint(-60, 60), 2.0 ** rng.randint(-200, 60), 0.0, True),
                                   (rng.uniform(0.01, 2), rng.uniform(0.01, 2), 0.0, False),
                                   (rng.uniform(0.01, 2), 0.1, rng.uniform(0, 1), False)):
            real = [((m * sm + off) if not exact else m * sm, t * st) for m, t in pb]
            add("red|" + flat(real), "red", b, real)
            if rng.random() < (1 if exact and sm == 1 else 0.5):
                q, e = [], []
                for i, row in enumerate(b["v"]):
                    for j, v in enumerate(row):
                        m, t = (i - 1) / 2, j / 4
                        mine = (m * sm + off if not exact else m * sm, t * st)
                        if v == 2 and not tie_exact(b, m, exact):
                            continue
                        q.append(mine)
                        e.append({0: "0", 1: "1", 2: "0", 3: "P"}[v])
                add("dec|%s|%s" % (flat(real), flat(q)), "dec", b, real, q, "".join(e))
        # a temperature vanishes or it does not, however small
        real = [(float(m), rng.choice([0.0, -0.0]) if t == 0 else rng.choice([5e-324, 1e-310, 10 ** rng.uniform(-300, -6), 10 ** rng.uniform(-6, 300)]))
                for m, t in pb]
        add("red|" + flat(real), "red", b, real)
    for c in rm.lines:
        ds, best = c["ds"], c["best"]
        chk.count("curves")
        for k in range(2):
            if k == 0:
                val = [float(x) for x in range(10)]
                ts = [float(i) for i in range(len(ds))]
            else:
                val = injection(rng)
                ts = sorted(rng.uniform(0, 3) for _ in ds)
                if len(set(ts)) < len(ts):
                    continue
            vs = [rng.choice([0.0, -0.0]) if val[d] == 0 else val[d] for d in ds]
            add("max|%s|%s" % (" ".join(map(hx, ts)), " ".join(map(hx, vs))), "max", c, ts, ts[best - 1])
    ans = phase(lines)
    for l, w, a in zip(lines, what, ans):
        if a == "NOT-RUN":
            continue
        chk.traces += 1
        if w[0] == "red":
            n = w[1]["red"]
            chk.n += 1
            if a != "%d %d 1" % (n, n):
                chk.violation("reduced boundary", boundary=w[2], expected_length=n,
                              got="length, length when reduced again, prefix in place: " + a, query=l)
            else:
                chk.nontrivial.add(("red", len(w[2]), n))
        elif w[0] == "dec":
            chk.n += len(w[4])
            if a != w[4]:
                k = next((i for i in range(min(len(a), len(w[4]))) if a[i] != w[4][i]), None)
                chk.violation("classification", boundary=w[2], at=w[3][k] if k is not None else None,
                              expected=w[4][k] if k is not None else None, got=a[k] if k is not None else a,
                              legend="0 confined, 1 deconfined, P refused", query=l if len(l) < 4000 else l[:4000])
            else:
                chk.nontrivial.add(("dec", json.dumps(w[1]["pb"])))
                chk.sample(dict(boundary=w[2], queries=len(w[4]), verdicts=w[4][:40]))
        else:
            chk.n += 1
            if a != hx(w[3]):
                chk.violation("critical temperature", temperatures=w[2], order=w[1]["ds"], expected=w[3], got=a, query=l)
            else:
                chk.nontrivial.add(("max", tuple(w[1]["ds"])))


def injection(rng):
    """Ten increasing real numbers: the order of the model is all that may matter."""
    k = rng.randrange(8)
    c = rng.choice([1.0, -1.0, 0.3, -7.0, 1e10, 1e-10])
    if k == 0:
        v = [rng.choice([rng.uniform(-3, 3), rng.choice([1, -1]) * 10 ** rng.uniform(-12, 12)]) for _ in range(10)]
    elif k == 1:
        v = [c]
        while len(v) < 10:                      # neighbouring floating-point numbers
            v.append(math.nextafter(v[-1], math.inf))
    elif k == 2:
        v = [5e-324 * i for i in range(-4, 6)]  # next to zero
    elif k == 3:
        v = [10.0 ** rng.uniform(-40, -10) for _ in range(10)]
    elif k == 4:
        v = [c * (1 + i * 10 ** rng.uniform(-13, -3)) for i in range(10)]
    elif k == 5:
        v = [-math.inf] + [rng.uniform(-1e300, 1e300) for _ in range(8)] + [math.inf]
    elif k == 6:
        v = [-rng.uniform(0, 1) * 10 ** rng.uniform(-20, 2) for _ in range(10)]
    else:
        v = [float(i - rng.randrange(10)) for i in range(10)]
        v = [float(i) + v[0] for i in range(10)]
    v = sorted(set(v))
    return v if len(v) == 10 else injection(rng)


def segment(b, m):
    r = b["pb"][:b["red"]]
    return next((k for k in range(len(r) - 1) if r[k][0] < m < r[k + 1][0]), None)


def tie_exact(b, m, exact):
    """Is a point on the boundary represented exactly, and the interpolation there exact?"""
    k = segment(b, m)
    if k is None:
        return True
    r = b["pb"]
    return exact and r[k + 1][0] - r[k][0] in (1, 2, 4)

