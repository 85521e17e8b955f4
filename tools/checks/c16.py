"""C16: the parametrization of every boundary of the model solves its normal equations."""
from fractions import Fraction
from checks.c15 import phase, flat
from vlib import *


def main(chk):
    build()
    r = tlc("Fit", "FitT" if THOROUGH else "Fit", workers=4 if THOROUGH else 2)
    if not r.ok:
        raise ToolError("Fit: " + r.error)
    chk.add_tlc(r, "Fit")
    rng = chk.rng
    lines, what = [], []
    for b in r.lines:
        scales = [(0.25, 1.0), (rng.uniform(0.1, 0.4), rng.uniform(0.1, 1))]
        for s, tau in scales:
            full = [(x * s, t * tau) for x, t in b["pb"]]
            red = full[:b["len"]]
            lines += ["fit|%d|%s" % (b["n"], flat(full)), "fit|%d|%s" % (b["n"], flat(red))]
            what.append((b, s, tau, full, red))
    ans = phase(lines)
    for i, (b, s, tau, full, red) in enumerate(what):
        a, c = ans[2 * i], ans[2 * i + 1]
        if "NOT-RUN" in (a, c):
            continue
        chk.n += 2
        chk.traces += 2
        chk.count("free" if b["free"] else "polynomial")
        if b["len"] < len(b["pb"]):
            chk.count("with_tail")
        bad = None
        if not a.startswith("V ") or not c.startswith("V "):
            bad = "no coefficients"
        else:
            p, q = ([xh(x) for x in y[2:].split()] for y in (a, c))
            if len(p) != b["n"] + 1 or len(q) != len(p):
                bad = "wrong number of coefficients"
            elif not all(close(x, y, 1e-9, 1e-9) for x, y in zip(p, q)):
                bad = "the part beyond the first vanishing temperature matters"
            else:
                # the normal equations in the units of the model: chemical potentials in s, temperatures in tau
                u = [x * s ** k / tau for k, x in enumerate(p)]
                for row, rhs in zip(b["G"], b["r"]):
                    lhs = sum(g * x for g, x in zip(row, u))
                    size = sum(abs(g * x) for g, x in zip(row, u)) + abs(rhs)
                    if not abs(lhs - rhs) <= 1e-6 * size:
                        bad = "the normal equations are not solved"
                if not b["free"]:
                    for x, t in b["pb"][:b["len"]]:
                        y = sum(pk * (x * s) ** k for k, pk in enumerate(p))
                        if not abs(y - t * tau) <= 1e-7 * tau * max(1, abs(t)):
                            bad = "the data of a polynomial boundary is not reproduced"
                    if not all(abs(x - e) <= 1e-5 * max(1, max(map(abs, b["c"]))) for x, e in zip(u, b["c"])):
                        bad = "the coefficients of a polynomial boundary are not found"
        if bad:
            chk.violation(bad, degree=b["n"], boundary=full, reduced=red, coefficients=b["c"] if not b["free"] else None,
                          scale=(s, tau), got=[xh(x) for x in a[2:].split()] if a.startswith("V ") else a,
                          got_reduced=[xh(x) for x in c[2:].split()] if c.startswith("V ") else c)
        else:
            chk.nontrivial.add((b["n"], b["free"], json.dumps(b["pb"])))
            chk.sample(dict(degree=b["n"], boundary=full, coefficients=[xh(x) for x in a[2:].split()]))
