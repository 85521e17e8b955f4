"""C07: every behaviour of FindRoot.tla replayed on find_root; recorded searches validated against its steps."""
from vlib import *
from fractions import Fraction


class Lines(Harness):
    """A harness in another mode."""

    def __init__(self, mode, timeout=60):
        self.mode = mode
        super().__init__(timeout=timeout)

    def _start(self):
        self.p = subprocess.Popen([EXE, self.mode], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        self.buf = b""


def cenc(z):
    z = complex(z)
    return hx(z.real) + "," + hx(z.imag)


def cdec(s):
    a, b = s.split(",")
    return complex(xh(a), xh(b))


def num(g):
    """A Gaussian rational of GRat.tla; d = 0 marks NaN and non-finite points."""
    return None if g["d"] == 0 else complex(Fraction(g["re"], g["d"]), Fraction(g["im"], g["d"]))


def parse(ans):
    head, _, log = ans.partition(" | ")
    pts = [tuple(cdec(x) for x in e.split("=")) for e in log.split()]
    return head.split(), pts


def finite(z):
    return math.isfinite(z.real) and math.isfinite(z.imag)


def main(chk):
    build()
    runs = [("R", "FindRootR"), ("C", "FindRootC")]
    if THOROUGH:
        runs += [("R", "FindRootR4"), ("C", "FindRootC3")]
    for ty, cfg in runs:
        r = tlc("FindRootMC", cfg, workers=1, timeout=850, mem="6g")
        if not r.ok:
            raise ToolError("FindRoot: " + r.error)
        chk.add_tlc(r, cfg)
        for k in range(4 if THOROUGH else 2):
            replay(chk, ty, r.lines, k)
    recorded(chk, 100000 if THOROUGH else 3000)
    refusals(chk)
    chk.assumptions.append("values of the searched function are explored over a finite set (exact arithmetic), then at random")


def replay(chk, ty, lines, k):
    # secant iterations commute with affine changes of the variable and with scaling of the values
    rng = chk.rng
    a = [1.0, 2.0 ** -20, rng.uniform(0.1, 5), -2.0 ** rng.randrange(-30, 30)][k % 4]
    if ty == "C" and k % 2:
        a = complex(a, rng.uniform(-1, 1))
    b = [0.0, 0.0, rng.uniform(-1, 1) * abs(a), 0.0][k % 4]
    g = [1.0, 2.0 ** rng.randrange(-60, 40), 10 ** rng.uniform(-9, 3), -1.0][k % 4]
    tol = abs(g) * 0.5
    P = lambda z: a * z + b
    cmds = []
    for l in lines:
        p = l["par"]
        w = num(p["w"])
        tab = []
        for e in l["known"]:
            v = num(e["v"])
            tab.append(cenc(P(num(e["z"]))) + "=" + cenc(complex("nan") if v is None else (g * v)))
            if v is None:
                # a NaN in either component
                tab[-1] = tab[-1].split("=")[0] + "=" + (hx(math.nan) + "," + hx(0.0) if ty == "R" or rng.random() < .5 else hx(0.3 * tol) + "," + hx(math.nan))
        z = [P(complex(*q)) for q in p["g"]]
        cmds.append("root %s %s %d %s %s %s %s" % (ty, hx(tol), p["n"], cenc(z[0]), cenc(z[1]),
                                                  cenc(complex(math.nan, 0) if w is None else g * w), " ".join(tab)))
    h = Lines("roots")
    ans = h.cmds(cmds)
    h.close()
    for l, c, s in zip(lines, cmds, ans):
        chk.n += 1
        chk.traces += 1
        why = judge(l, s, P, g, tol)
        if why:
            chk.violation(why, command=c, answer=str(s), behaviour=l)
            if len(chk.viol) > 20:
                return
        else:
            chk.nontrivial.add((ty, l["out"], len(l["known"]), l["par"]["n"], l["at"]["d"] == 0))
            chk.sample(dict(command=c, answer=str(s)[:300], predicted=l["out"]))


def judge(l, s, P, g, tol):
    if isinstance(s, Err):
        return "the search did not return: " + s
    head, log = parse(s)
    n = l["par"]["n"]
    if len(log) > n + 2:
        return "more than n + 2 evaluations"
    if head[0] == "PANIC":
        return "the search panicked"
    scale = max([abs(P(num(e["z"]))) for e in l["known"]] + [abs(P(0) - P(1))])
    # the points at which the function was called, in the order of their first evaluation
    want = [P(num(e["z"])) for e in l["known"]]
    order = []
    for z, v in log:
        if not finite(z):
            continue
        k = min(range(len(want)), key=lambda i: abs(want[i] - z))
        if abs(want[k] - z) > 1e-6 * scale:
            return "evaluated at a point off the secant iteration"
        if k not in order:
            order.append(k)
    # the two guesses may be evaluated in either order, the iterates may not
    if [k for k in order if k >= 2] != list(range(2, len([k for k in order if k >= 2]) + 2)):
        return "iterates in the wrong order"
    if head[0] == "FOUND":
        z, f = cdec(head[1]), cdec(head[2])
        if f != f or not abs(f) < tol:
            return "success without a root"
        if n == 0:
            return "success with no iterations"
        if l["out"] != "found":
            return "success where the specification fails"
        at = num(l["at"])
        if at is None:
            if finite(z):
                return "another point than the first root"
        elif abs(z - P(at)) > 1e-6 * scale or abs(f - g * num(l["f"])) > 1e-12 * abs(g):
            return "another point than the first root"
        if not any((y == z or (z != z and y != y)) and v == f for y, v in log):
            return "the returned value is not the value at the returned point"
        if at is not None and len(order) != len(want):
            return "a root without the evaluations that lead to it"
    else:
        if l["out"] == "found" and num(l["at"]) is not None:
            return "failure where the specification finds a root"
    return None


def recorded(chk, num_):
    """Searches of named functions, recorded and checked step by step against the secant transition."""
    rng = chk.rng
    cmds = []
    for i in range(num_):
        ty = rng.choice("RC")
        u = lambda a=3: rng.uniform(-a, a)
        name = rng.choice(["poly", "poly", "poly", "exp", "tanh", "atan", "pole", "sqrt", "log", "step", "flat", "nanbelow", "wiggle"])
        p = {"poly": lambda: [u() for _ in range(rng.randrange(2, 6))], "exp": lambda: [u(), u(), u()], "tanh": lambda: [u(), u(), u(.5)],
             "atan": lambda: [u(), u(), u(.5)], "pole": lambda: [u(), u()], "sqrt": lambda: [u(), u()], "log": lambda: [u(), u()],
             "step": lambda: [u(), u(), u()], "flat": lambda: [rng.choice([0.0, u(), 1e-12]), 0.0], "nanbelow": lambda: [u(), u()],
             "wiggle": lambda: [u(), u(), u()]}[name]()
        tol = 10 ** rng.uniform(-13, 0)
        n = rng.choice([0, 1, 2, 3, 5, 10, 30, 100])
        z = [complex(u(), u() if ty == "C" else 0) for _ in range(2)]
        cmds.append((ty, tol, n, "rootf %s %s %d %s %s %s %s" % (ty, hx(tol), n, cenc(z[0]), cenc(z[1]), name, " ".join(hx(x) for x in p)), z))
    h = Lines("roots")
    ans = h.cmds([c[3] for c in cmds])
    h.close()
    for (ty, tol, n, c, z), s in zip(cmds, ans):
        chk.n += 1
        chk.traces += 1
        why = validate(tol, n, z, s)
        if why:
            chk.violation(why, command=c, answer=str(s)[:2000])
        chk.nontrivial.add(("recorded", c.split()[6], str(s).split()[0]))


def small(v, tol):
    return abs(v) < tol


def validate(tol, n, g, s):
    if isinstance(s, Err):
        return "the search did not return: " + s
    head, log = parse(s)
    if head[0] == "PANIC":
        return "the search panicked"
    if len(log) > n + 2:
        return "more than n + 2 evaluations"
    val = {}
    for z, v in log:
        val.setdefault((hx(z.real), hx(z.imag)), v)
    at = lambda z: val.get((hx(z.real), hx(z.imag)))
    # the iteration, followed on the recorded values
    z0, z1 = g
    f0, f1 = at(z0), at(z1)
    if head[0] == "FOUND":
        rz, rf = cdec(head[1]), cdec(head[2])
        if not small(rf, tol) or n == 0:
            return "success without a root"
        v = at(rz) if rz == rz else next((b for a, b in log if a != a), None)
        if v is None or v != rf:
            return "the returned value is not the value at the returned point"
    if f0 is None or f1 is None:
        return None if n == 0 and head[0] == "NONE" else "a guess was not evaluated"
    for it in range(n):
        if f1 != f1:
            return None if head[0] == "NONE" else "success after a NaN"
        if small(f1, tol):
            if head[0] != "FOUND":
                return "failure at a root"
            if finite(z1) and abs(rz - z1) > 1e-9 * (1 + abs(z1)):
                return "not the first root"
            return None
        # nothing to compare where rounding decides the next point
        if not (finite(z0) and finite(z1) and finite(f0) and finite(f1)) or abs(f1 - f0) <= 1e-6 * (abs(f1) + abs(f0)):
            return None
        if max(abs(z0), abs(z1), abs(f0), abs(f1)) > 1e100:
            return None
        z2 = (z0 * f1 - z1 * f0) / (f1 - f0)
        err = 1e-8 * (abs(z0 * f1) + abs(z1 * f0)) / abs(f1 - f0) + 1e-12 * abs(z2) + 1e-300
        near = sorted((abs(z - z2), i) for i, (z, v) in enumerate(log) if finite(z) and abs(z - z2) <= err)
        if not near:
            return None if head[0] == "NONE" and it == n - 1 else "a step off the secant iteration"
        if err > 1e-3 * (abs(z2) + abs(z1)):
            return None
        z2, f2 = log[near[0][1]]
        z0, z1, f0, f1 = z1, z2, f1, f2
    return None if head[0] == "NONE" else "success past the iteration limit"


def refusals(chk):
    cases = []
    T = cenc(0) + "=" + cenc(-1) + " " + cenc(1) + "=" + cenc(1)
    for ty in "RC":
        for tol in (0.0, -0.0, -1.0, -1e-300, math.nan, -math.inf):
            cases.append("root %s %s 10 %s %s %s %s" % (ty, hx(tol), cenc(0), cenc(1), cenc(1), T))
        for a, b in ((0.0, 0.0), (0.0, -0.0), (1.5, 1.5), (-2.0, -2.0)):
            for tol in (1e-6, 1.0):
                cases.append("root %s %s 10 %s %s %s %s" % (ty, hx(tol), cenc(a), cenc(b), cenc(1), T))
    cases.append("root C %s 10 %s %s %s %s" % (hx(1e-6), cenc(1 + 2j), cenc(1 + 2j), cenc(1), T))
    h = Lines("roots")
    for c, s in zip(cases, h.cmds(cases)):
        chk.n += 1
        if not str(s).startswith("PANIC"):
            chk.violation("a wrong argument was accepted", command=c, answer=str(s))
    # and the complex guesses that differ in one component only are fine
    for a, b in ((1 + 2j, 1 + 3j), (1 + 2j, 2 + 2j)):
        s = h.cmd("root C %s 10 %s %s %s %s" % (hx(1e-6), cenc(a), cenc(b), cenc(1), T))
        if str(s).startswith("PANIC"):
            chk.violation("distinct guesses were refused", answer=str(s))
    h.close()
