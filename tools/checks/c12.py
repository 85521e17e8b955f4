"""C12: every element of the group of Symmetry.tla applied to the arguments of every function it acts on."""
import cmath
from api import *

CFGS = {0: (5, [(2, 0.45), (1, 0.8)], 0.7), 1: (3, [(2, 0.35), (1, 0.35)], 0.656)}


def klass(fn):
    n = fn.split("#")[0]
    b = n.split("::")[-1]
    args, types = functions()[fn]
    if "F" in types:
        return "cfg"
    if b.startswith("charge_density"):
        return "density"
    if b.startswith("chemical_potential"):
        return "inverse"
    if b.startswith("tlog"):
        return "tlog"
    if n.startswith("common::thermal") or n.startswith("low_level::common") or "_sep" in b:
        return None
    if "m1" in args and not b.startswith("d_"):
        return "masses"
    if "s" in args:
        return "vacuum"
    return "even"


def heavy(fn):
    """Functions that integrate."""
    n = fn.split("#")[0]
    return "thermal" in n and not n.endswith("_i") and "same_mass" not in n and "tlog" not in n and \
        (n.startswith(("ym", "qcd")) or "landau" in n) and "zero_temp" != n


def act(fn, pt, g):
    """The arguments of fn at the image of pt; and the configuration, if there is one."""
    names, types = functions()[fn]
    ci = 0
    out = []
    for a, t in zip(names, types):
        src = {"m1": "m2", "m2": "m1"}.get(a, a) if g["swap"] else a
        v = pt.arg(src, t, cfg=0)
        if t == "I":
            v = METHOD["zm"] if "zero_matsubara" in fn else METHOD["gen"]
        if t == "F":
            ci = ("m" in g["flip"]) * 1 + ("mq" in g["flip"]) * 2
            v = ci + pt.cfg * 4
            out.append("F:%d" % v)
            continue
        if a in g["flip"]:
            v = -v
        if g["conj"] and isinstance(v, complex):
            v = v.conjugate()
        out.append(v)
    return out


def setup():
    out = []
    for k, (nc, q, mg) in CFGS.items():
        for i in range(4):
            s, t = (-1 if i & 1 else 1), (-1 if i & 2 else 1)
            out.append("new %d %d %s %s" % (4 * k + i, nc, hx(s * mg), " ".join("%d:%s" % (n, hx(t * m)) for n, m in q)))
    return out


def relevant(fn, g):
    """Elements that act differently on this function only."""
    names, types = functions()[fn]
    if g["swap"] and types[names.index("m1")] != types[names.index("m2")]:
        return False
    have = set(names) | ({"m", "mq"} if "F" in types else set())
    if not set(g["flip"]) <= have:
        # a reflection flips a frequency that the function does not have: it is a conjugation
        if not (set(g["flip"]) - have == {"om"} and klass(fn) == "tlog"):
            return False
    return True


def main(chk):
    build()
    r = tlc("Symmetry")
    if not r.ok:
        raise ToolError("Symmetry: " + r.error)
    chk.add_tlc(r, "Symmetry")
    by = {}
    for l in r.lines:
        by.setdefault(l["cls"], []).append((l["g"], l["chi"]))
    chk.cov["group_elements"] = {k: len(v) for k, v in by.items()}
    fns = [f for f in functions() if klass(f)]
    n_light, n_heavy = (200, 40) if THOROUGH else (24, 5)
    pts = [Point(chk.rng, lo=0.3, hi=2.2) for _ in range(n_light)]
    for k, p in enumerate(pts):
        p.cfg = k % len(CFGS)
        p.mu = [p.mq * 1.7, 0.3 * p.mq, p.mu, p.mq * 3][k % 4] or 0.2
        p.beta = max(p.beta, 0.5)
        if k % 5 == 1:
            p.om, p.omC = -p.om, -p.omC
        if k % 5 == 2:
            p.sC = complex(-abs(p.sC.real), p.sC.imag or .1)
        if k % 7 == 3:
            p.om, p.p, p.q = 0.07 * p.om, 3 * p.p, 3 * p.q
        p.heavy_ok = k % 7 != 3
        if k % 11 == 5:
            p.m2 = p.m1
    wide = [wide_point(chk.rng) for _ in range(400 if THOROUGH else 40)]
    for k, p in enumerate(wide):
        p.cfg, p.heavy_ok = k % len(CFGS), False
    pts += wide
    calls, cases = [], []
    hp = [p for p in pts if p.heavy_ok][:n_heavy]
    for k in range(16 if THOROUGH else 4):
        # cold, hot, and far above or below the masses
        p = Point(chk.rng, lo=[1.5, 0.15][k % 2], hi=[8, 0.6][k % 2])
        p.cfg, p.heavy_ok = k % len(CFGS), True
        p.beta = chk.rng.uniform(40, 200) if k % 4 < 2 else chk.rng.uniform(0.1, 0.4)
        hp.append(p)
    for f in fns:
        els = by[klass(f)]
        for p in (hp if heavy(f) else pts):
            if heavy(f) and "chemical_potential" in f:
                p_ok = True
            base = (f, act(f, p, {"flip": [], "conj": False, "swap": False}))
            for g, chi in els:
                if not relevant(f, g) or (not g["flip"] and not g["conj"] and not g["swap"]):
                    continue
                img = (f, act(f, p, g))
                cases.append((f, base, img, g, chi))
    uniq = {}
    for f, b, i, g, chi in cases:
        uniq.setdefault(key(b), b)
        uniq.setdefault(key(i), i)
    vals = evaluate(uniq.values(), timeout=3, setup=setup())
    slow, suspects = 0, []

    def fail(f, b, i, g, chi, u, v):
        chk.violation("a symmetry is broken", function=f, element=g, character=chi, base=call(b[0], *b[1]), base_value=str(u),
                      image=call(i[0], *i[1]), image_value=str(v), setup=setup())

    for f, b, i, g, chi in cases:
        u, v = vals[key(b)], vals[key(i)]
        if isinstance(u, Err) and u.startswith("TIMEOUT"):
            slow += 1
            continue
        chk.n += 1
        ok = not isinstance(u, Err) and not isinstance(v, Err)
        if ok:
            e = complex(u) * chi["sign"]
            e = e.conjugate() if chi["conj"] else e
            ok = close(v, e, 1e-6 if heavy(f) else 1e-8) or (heavy(f) and noisy(f, u, v, e, b[1]))
            if not ok and not heavy(f) and e == e and complex(v) == complex(v):
                # compared with how much the values are worth
                suspects.append((f, b, i, g, chi, u, v, e))
                continue
        if ok:
            chk.nontrivial.add((f, len(g["flip"]), g["conj"], g["swap"]))
            chk.sample(dict(function=f, element=g, at=call(*[b[0]] + b[1]), image=call(*[i[0]] + i[1]), value=str(v)))
        else:
            fail(f, b, i, g, chi, u, v)
    noise = noises([c for x in suspects for c in x[1:3]], chk.rng, setup())
    for f, b, i, g, chi, u, v, e in suspects:
        if abs(complex(v) - e) > 100 * (noise[key(b)] + noise[key(i)]) + 1e-8 * abs(e) + 1e-300:
            fail(f, b, i, g, chi, u, v)
    chk.cov["judged_by_their_noise"] = len(suspects)
    chk.traces = len(cases)
    chk.cov["functions"] = len(fns)
    chk.cov["skipped_slow"] = slow
    if slow > 0.2 * len(cases):
        chk.violation("more than 20%% of the evaluations do not end within 3 s", slow=slow, of=len(cases))


def noisy(f, u, v, e, args):
    """Values of a correlator are compared through its inverse dressing, to the tolerance of the quadrature."""
    names, types = functions()[f]
    d = dict(zip(names, args))
    om, p = d.get("om", 0), d.get("p", 0)
    P2 = abs(om * om + p * p)
    b = f.split("#")[0].split("::")[-1]
    itol = 1e-6 if "zero_matsubara" in f else 1e-8
    if b.startswith(("polarization", "self_energy", "charge", "chemical")):
        return abs(v - e) <= itol * 10
    if "_inv_" in b:
        return abs(v - e) <= itol * PREF / P2
    k = P2 if b.startswith("propagator") else 1
    return v != 0 and e != 0 and abs(1 / v - 1 / e) / k <= itol * PREF / P2
