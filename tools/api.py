"""Binds the symbols of Denot.tla to the real library: query shape -> function names, atom -> value."""
import cmath, math
from concurrent.futures import ThreadPoolExecutor
from vlib import *

PREF = 16 * math.pi ** 2 / 3
REG_MOD = {"gen": "", "zm": "zero_matsubara::", "zp": "zero_momentum::"}
METHOD = {"gen": "I:G7K15:%s:50" % hx(1e-10), "zp": "I:G7K15:%s:50" % hx(1e-10), "zm": "I:G7K15:%s:50" % hx(1e-8)}
METHOD_GHOST = METHOD["gen"]


# ---------------------------------------------------------------- shapes
def symbol(s):
    """The name of the function a query shape stands for."""
    mod = "ym" if s["fam"] == "ym" else "qcd"
    cfg = "_w_field_config" if s["fam"] == "cfg" else ""
    obj = {"inv": ("dressing", "_inv"), "dr": ("dressing", ""), "pr": ("propagator", "")}[s["obj"]]
    if s["reg"] == "vac":
        return "%s::%s::%s%s%s%s%s" % (mod, s["field"], obj[0], "_crossed" if s["cross"] else "", obj[1],
                                       "_landau" if s["gauge"] == "landau" else "", cfg)
    pol = "" if s["pol"] == "-" else "_" + s["pol"]
    return "%s::thermal::%s%s::%s%s%s%s_landau%s" % (mod, REG_MOD[s["reg"]], s["field"], obj[0], pol, obj[1],
                                                    "_zero_temp" if s["temp"] == "zero" else "", cfg)


_variants = None


def variants(name):
    """All monomorphic instances of a (generic) function in the harness' table."""
    global _variants
    if _variants is None:
        _variants = {}
        for k in functions():
            _variants.setdefault(k.split("#")[0], []).append(k)
    return _variants.get(name, [])


# ---------------------------------------------------------------- points
class Point:
    """Concrete arguments. Complex ones are used for the C variants, real ones for the R variants."""

    def __init__(self, rng, masses=None, lo=0.3, hi=2.0):
        u = lambda a, b: math.exp(rng.uniform(math.log(a), math.log(b)))
        self.om, self.p = u(lo, hi), u(lo, hi)
        self.omC = complex(self.om, rng.uniform(-0.4, 0.4) * self.om)
        self.pC = complex(self.p, rng.uniform(-0.3, 0.3) * self.p)
        self.s = u(0.05, 20)
        self.sC = complex(self.s, rng.uniform(-2, 2))
        self.m = u(0.3, 1.5)
        self.mq = u(0.1, 1.5)
        self.m1, self.m2 = u(0.2, 1.5), u(0.2, 1.5)
        self.beta = u(0.3, 30)
        self.mu = rng.choice([0.0, u(0.05, 3), -u(0.05, 3), u(0.3, 1.5)])
        self.f0, self.g0, self.xi = rng.uniform(-2, 2), rng.uniform(-1, 2), rng.uniform(-1, 2)
        self.q = u(0.05, 4)
        self.en, self.enC = u(0.1, 4), complex(u(0.1, 4), rng.uniform(-1, 1))
        self.x, self.xC = rng.uniform(-3, 3), complex(rng.uniform(-3, 3), rng.uniform(-1, 1))
        self.n = rng.uniform(-3, 3)
        self.muC = complex(self.mu, 0.1)

    def arg(self, name, ty, m=None, mq=None, cfg=None, adim=False):
        if ty == "F":
            return "F:%d" % cfg
        if ty == "I":
            return METHOD["gen"]
        if name == "m" and m is not None:
            v = m
        elif name == "mq" and mq is not None:
            v = mq
        elif name in ("ln_s", "ln_s_pl_1"):
            s = self.sC if ty == "C" else self.s
            s = s + 1 if name == "ln_s_pl_1" else s
            return (cmath.log(s) if s else 0.3 + 0j) if ty == "C" else math.log(s) if s > 0 else s
        elif ty == "C":
            v = getattr(self, name + "C", None)
            if v is None:
                v = complex(getattr(self, name), 0.07)
        else:
            v = getattr(self, name)
        return complex(v) if ty == "C" else v


def wide_point(rng):
    """Arguments far from the scales of the theory, with ratios up to about a hundred."""
    p = Point(rng)
    u = lambda a, b: math.exp(rng.uniform(math.log(a), math.log(b)))
    sgn = lambda: rng.choice([1, -1])
    k = rng.choice([1, 1, u(1e-3, 1e3)])        # one scale for everything that has a dimension
    p.om, p.p, p.q = k * u(0.05, 8) * sgn(), k * u(0.05, 8), k * u(0.05, 8)
    p.omC, p.pC = complex(p.om, rng.uniform(-2, 2) * p.om), complex(p.p, rng.uniform(-0.3, 0.3) * p.p)
    p.s = u(1e-6, 1e4)
    p.sC = p.s * complex(rng.uniform(-1, 1), sgn() * u(1e-2, 1))
    p.m, p.mq, p.m1, p.m2 = (k * u(0.05, 8) for _ in range(4))
    if rng.random() < 0.4:
        p.m2 = p.m1 * rng.choice([1 + 1e-2, 1.1, 0.9, 2])
    # energy over temperature of any size, up to where the exponential overflows and beyond
    p.beta = rng.choice([u(1e-2, 1e3) / k, u(0.1, 100) / math.hypot(p.q, rng.choice([p.m, p.mq, p.m1]))])
    p.mu = sgn() * rng.choice([0.0, k * u(0.05, 10), math.hypot(p.q, p.mq) * u(0.5, 2)])
    p.en = k * u(0.05, 20)
    p.enC = complex(p.en, rng.uniform(-1, 1) * p.en)
    p.muC = complex(p.mu, 0.1 * k)
    return p


def noises(calls, rng, setup=(), n=12, timeout=3, rel=1e-10):
    """How far values move when their arguments do by very little (enough to change every rounding): key -> largest change."""
    calls = {key(c): c for c in calls}
    j = lambda x: x * (1 + rng.uniform(-rel, rel))
    wob = lambda a: complex(j(a.real), j(a.imag)) if isinstance(a, complex) else j(a) if isinstance(a, float) else a
    alt = {k: [c] + [(c[0], [wob(a) for a in c[1]]) for _ in range(n)] for k, c in calls.items()}
    vals = evaluate([c for cs in alt.values() for c in cs], timeout=timeout, setup=setup)
    out = {}
    for k, cs in alt.items():
        v = [vals[key(c)] for c in cs]
        v = [complex(x) for x in v if not isinstance(x, Err)]
        out[k] = max((abs(x - v[0]) for x in v[1:]), default=0.0) if v else 0.0
    return out


def call_args(fn, pt, **kw):
    names, types = functions()[fn]
    return [pt.arg(n, t, **kw) for n, t in zip(names, types)]


def ty_of(fn, name):
    names, types = functions()[fn]
    return types[names.index(name)] if name in names else None


def pick(low, **ty):
    """The instance of a low-level function with the given argument types."""
    best = None
    for k in variants(low):
        ok = all(ty_of(k, n) in (None, t) for n, t in ty.items())
        if ok:
            best = k
            break
        # a real argument may be embedded into a complex parameter
        if all(ty_of(k, n) in (None, t) or ty_of(k, n) == "C" for n, t in ty.items()) and best is None:
            best = k
    if best is None:
        raise ToolError("no instance of %s for %s" % (low, ty))
    return best


class Atoms:
    """Values of the atoms of Denot.tla, computed in pristine processes and cached."""

    def __init__(self, h=None):
        self.h = h or Harness()
        self.cache = {}
        self.methods, self.method_ghost = METHOD, METHOD_GHOST
        self.parts = []

    def ev(self, fn, args):
        k = (fn, tuple(enc(a) for a in args))
        if k not in self.cache:
            self.cache[k] = self.h.ev(fn, *args)
        return self.cache[k]

    def prefetch(self, calls):
        todo = []
        seen = set()
        for fn, args in calls:
            k = (fn, tuple(enc(a) for a in args))
            if k not in self.cache and k not in seen:
                seen.add(k)
                todo.append((k, (fn,) + tuple(args)))
        for (k, _), v in zip(todo, self.h.evs([c for _, c in todo])):
            self.cache[k] = v

    def value(self, s, fn, pt, atom, mq, m):
        """(factor, low-level call) of an atom for query shape s called through instance fn at point pt."""
        reg = s["reg"]
        if reg == "vac":
            z = pt.sC if ty_of(fn, "s") == "C" else pt.s
            sdim = None
        else:
            om = pt.omC if ty_of(fn, "om") == "C" else pt.om
            p = pt.pC if ty_of(fn, "p") == "C" else pt.p
            sdim = {"gen": om * om + p * p, "zm": p * p, "zp": om * om}[reg]
            z = sdim / (m * m)
        # the type of the argument of the vacuum functions
        V = "low_level::oneloop::%s::" % s["field"]

        def vac(low, x):
            return pick("low_level::oneloop::%s" % low, s="C" if isinstance(x, complex) else "R"), [x]
        if atom == "F":
            return 1, vac("gluon::f", z)
        if atom == "FXI":
            return pt.xi, vac("gluon::f_xi", z)
        if atom == "FZ":
            return pt.f0, None
        if atom == "G":
            return 1, vac("ghost::g", z)
        if atom == "GXI":
            return pt.xi, vac("ghost::g_xi", z)
        if atom == "GZ":
            return pt.g0, None
        if atom in ("FQ", "FQX"):
            # vacuum functions with a mass argument take it in units of the gluon mass
            r = mq if (reg == "vac" and s["fam"] == "qcd") else mq / m
            return 1, vac("gluon::f_q" if atom == "FQ" else "gluon::f_q_crossed", z / (r * r))
        L = "low_level::oneloop::thermal::%s::%s" % (s["field"], REG_MOD[reg])
        if atom == "SELF":
            low = L + "self_energy_thermal_part_landau_w_method"
            sign, meth = 1, self.method_ghost
        else:
            kind = "glue" if atom == "GLUE" else "quark"
            low = L + "polarization_%s_%s_thermal_part_%slandau_w_method" % (
                kind, s["pol"], "zero_temp_" if s["temp"] == "zero" else "")
            sign, meth = -1, self.methods[reg]
        low = pick(low, om=ty_of(fn, "om") or "R", p=ty_of(fn, "p") or "R")
        names, types = functions()[low]
        vals = dict(om=pt.omC if ty_of(fn, "om") == "C" else pt.om, p=pt.pC if ty_of(fn, "p") == "C" else pt.p,
                    m=m, mq=mq, beta=pt.beta, mu=pt.mu, integral=meth)
        args = [complex(vals[n]) if t == "C" else vals[n] for n, t in zip(names, types)]
        # the reference process has three colors
        return sign * PREF / sdim * (3 if atom == "QUARK" else 1), (low, args)

    def sum(self, s, fn, pt, terms, mass, m):
        """(sum, slack) of a denotation; slack is the error allowed on the sum: a relative error on every
        term plus, for the integrals, the absolute tolerance of the quadrature times the weight it enters with."""
        tot, slack = 0, 0.0
        self.parts = []
        rel = REL["vac"] if s["temp"] == "-" else REL["thermal"]
        itol = 1e-8 if s["reg"] == "zm" else 1e-10
        for t in terms:
            mq = mass[t["m"]] if t["m"] else None
            f, low = self.value(s, fn, pt, t["a"], mq, m)
            v = f if low is None else f * self._val(low)
            v = v * t["n"] / t["d"]
            tot += v
            self.parts.append(v)
            slack += rel * abs(v)
            if t["a"] in ("GLUE", "SELF", "QUARK"):
                slack += (400 if s["reg"] == "zm" else 40) * itol * PREF / abs(p2(s, fn, pt, m)) * t["n"]
        return tot, slack

    def _val(self, low):
        v = self.ev(low[0], low[1])
        if isinstance(v, Err):
            raise ToolError("reference evaluation failed: %s %s: %s" % (low[0], low[1], v))
        return v

    def calls(self, s, fn, pt, terms, mass, m):
        for t in terms:
            low = self.value(s, fn, pt, t["a"], mass[t["m"]] if t["m"] else None, m)[1]
            if low:
                yield low


def p2(s, fn, pt, m):
    """The squared Euclidean momentum by which the propagator divides the dressing function."""
    if s["reg"] == "vac":
        return pt.sC if ty_of(fn, "s") == "C" else pt.s
    om = pt.omC if ty_of(fn, "om") == "C" else pt.om
    p = pt.pC if ty_of(fn, "p") == "C" else pt.p
    return {"gen": om * om + p * p, "zm": p * p, "zp": om * om}[s["reg"]]


REL = {"vac": 1e-10, "thermal": 1e-7}


def matches(s, fn, pt, got, inv, slack, m):
    """Is `got` the value of object s.obj when the inverse dressing is `inv` up to `slack`?"""
    if isinstance(got, Err):
        return False
    got = complex(got)
    if got != got or math.isinf(abs(got)):
        return False
    if s["obj"] == "inv":
        return abs(got - inv) <= slack
    back = got * (p2(s, fn, pt, m) if s["obj"] == "pr" else 1)
    # compare the inverse that was returned, so that the slack keeps its meaning
    return back != 0 and abs(1 / back - inv) <= slack


def evaluate(calls, timeout=5, workers=7, setup=()):
    """Values of many calls (fn, args), each in one of a few pristine processes: key -> value."""
    todo = list({key(c): c for c in calls}.items())
    hs = [Harness(timeout=timeout) for _ in range(workers)]
    for h in hs:
        h.prologue = list(setup)
        if setup:
            h.cmds(h.prologue)

    def one(k):
        mine = todo[k::workers]
        try:
            return list(zip([x for x, _ in mine], hs[k].evs([(c[0],) + tuple(c[1]) for _, c in mine])))
        finally:
            hs[k].close()
    out = {}
    for r in parallel(one, range(workers), workers):
        out.update(r)
    return out


def key(c):
    return (c[0],) + tuple(enc(a) for a in c[1])


def parallel(fn, items, workers=6):
    with ThreadPoolExecutor(workers) as ex:
        return list(ex.map(fn, items))


# fields of a point that are used but not in the attribute table above
for _n, _d in (("delta", lambda p: 0.3), ("deltaC", lambda p: 0.3 + 0.05j)):
    setattr(Point, _n, property(_d))
