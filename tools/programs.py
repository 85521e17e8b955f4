"""Replays the random user programs printed by ApiSim.tla on the real library (C02, C03, C04)."""
import math
from api import *

NAMES = {"nc": "nc", "nf": "nf", "mq": "mq"}
DEFMQ = 0.5


class World:
    """The concrete numbers behind the symbols of one batch of programs."""

    def __init__(self, rng, npoints=6, batch=0):
        self.batch = batch
        for k in range(150):
            self.draw(rng, npoints)
            if self.fast(0.2 if k < 100 else 1.0):
                return
        raise ToolError("no point at which the integrals are fast")

    def fast(self, limit):
        """Integrals whose rounding noise exceeds the tolerance take seconds: such points are avoided."""
        h = Harness()
        try:
            for pt in self.points.values():
                for reg in REG_MOD:
                    low = "low_level::oneloop::thermal::%%s::%s%%s_thermal_part_landau_w_method" % REG_MOD[reg]
                    for kind, mass in (("polarization_glue_l", self.g), ("polarization_glue_t", self.g), ("self_energy", self.g),
                                       ("polarization_quark_l", self.mass), ("polarization_quark_t", self.mass)):
                        for fn in variants(low % ("ghost" if kind[0] == "s" else "gluon", kind)):
                            names, types = functions()[fn]
                            for m in mass.values():
                                if mass is self.mass and m in (self.mass[0], self.mass[1]):
                                    continue
                                args = [METHOD["gen"] if n == "integral" else m if n in ("m", "mq") else pt.arg(n, t) for n, t in zip(names, types)]
                                t0 = time.time()
                                v = h.ev(fn, *args, timeout=2.5 * limit)
                                if isinstance(v, Err) or time.time() - t0 > limit:
                                    return False
            return True
        finally:
            h.close()

    def draw(self, rng, npoints):
        u = lambda a, b: math.exp(rng.uniform(math.log(a), math.log(b)))
        self.mass = {0: DEFMQ, 1: u(0.2, 0.4), 2: u(0.3, 0.8), 3: u(0.5, 1.5), 4: u(0.15, 1.2)}
        self.g = {1: u(0.3, 0.9), 2: u(0.5, 1.5), 3: u(0.4, 1.0)}
        k = rng.randrange(4)
        if k == 0:
            self.mass[4] = self.mass[2]      # two symbols, one mass
        elif k == 1:
            self.g[3] = self.mass[1]         # a quark as heavy as the gluon
        elif k == 2:
            self.g[2] = 1.0
        # far heavier or far lighter than everything else
        self.mass[5] = u(15, 60) if self.batch % 2 == 0 else u(0.01, 0.05)
        self.g[4] = u(0.1, 0.2) if self.batch % 2 else u(5, 15)
        self.points = {i + 1: Point(rng) for i in range(npoints)}
        for i in range(5, npoints + 1):      # far from the scales of the theory
            p = self.points[i] = Point(rng, lo=0.1, hi=20)
            p.s = u(1e-3, 1e4)
            p.sC = p.s * complex(rng.uniform(-1, 1), rng.choice([-1, 1]) * u(1e-2, 1))
            p.beta = rng.choice([u(0.4, 1), u(30, 300)])
            p.mu = rng.choice([0.0, u(0.01, 0.1), -u(1, 4), u(1, 4)])
        ms = sorted(self.mass[i] for i in range(5))
        self.points[1].mu = 0.0
        self.points[2].mu = ms[-1] * 1.5     # above every mass
        self.points[3].mu = -(ms[1] + ms[2]) / 2
        self.points[4].beta = 40.0


def qtok(q, w):
    return " ".join("%d:%s" % (n, hx(w.mass[m])) for n, m in q)


def low_class(fn):
    if "polarization_quark" in fn:
        return "quark"
    if "charge_density" in fn:
        return "density"
    if fn.startswith(("qcd::", "ym::")):
        return None
    return "free"


_low = None


def low_list(w):
    global _low
    if _low is None:
        _low = {}
        for f in functions():
            _low.setdefault(low_class(f), []).append(f)
    return _low[w]


def compile_program(hist, w, ci):
    """The command lines of a program and, for each, what is expected: ('exact', text) or ('value', ...)."""
    out = []
    used = set()
    for st in hist:
        op, a = st["op"], st["a"]
        if op in NAMES:
            v = a[0]
            out.append(("set %s %s" % (op, hx(w.mass[v]) if op == "mq" else v), ("exact", "OK"), st))
        elif op == "new":
            i, c = a
            out.append(("new %d %d %s %s" % (i, c["nc"], hx(w.g[c["g"]]), qtok(c["quarks"], w)), ("exact", "OK"), st))
            used.add(i)
        elif op == "clone":
            out.append(("clone %d %d" % (a[0], a[1]), ("exact", "OK"), st))
            used.add(a[0])
        elif op == "anc":
            out.append(("mut %d nc %d" % (a[0], a[1]), ("exact", "OK"), st))
        elif op == "ag":
            out.append(("mut %d gluon %s" % (a[0], hx(w.g[a[1]])), ("exact", "OK"), st))
        elif op == "aq":
            out.append(("mut %d quarks %s" % (a[0], qtok(a[1], w)), ("exact", "OK"), st))
        elif op == "push":
            out.append(("mut %d push %s" % (a[0], qtok([a[1]], w)), ("exact", "OK"), st))
        elif op == "pop":
            out.append(("mut %d pop" % a[0], ("exact", "OK"), st))
        elif op == "setq":
            out.append(("mut %d setq %d %s" % (a[0], a[1] - 1, qtok([a[2]], w)), ("exact", "OK"), st))
        elif op in ("xnc", "xnf", "xanc", "xag"):
            # an excursion to a degenerate value, with an evaluation on the way whose result is not judged
            pre = "set %s " % op[1:] if op in ("xnc", "xnf") else "mut %d %s " % (a["i"], {"xanc": "nc", "xag": "gluon"}[op])
            conv = (lambda v: hx(w.g[v])) if op == "xag" else str
            out.append((pre + (hx(0.0) if op == "xag" else a["d"]), ("exact", "OK"), st))
            fn = variants(symbol(a["s"]))[0]
            if "F" not in functions()[fn][1] or a["i"]:
                out.append((call(fn, *call_args(fn, w.points[a["pt"]], m=w.g[1], mq=w.mass[1], cfg=a["i"])), ("any",), st))
            out.append((pre + conv(a["v"]), ("exact", "OK"), st))
        elif op == "q":
            s, pt = a["s"], w.points[a["pt"]]
            name = symbol(s)
            vs = variants(name)
            if not vs:
                raise ToolError("no function " + name)
            m = w.g[a["g"]]
            # a global-settings vacuum function works in units of the gluon mass
            for fn in vs:
                args = call_args(fn, pt, m=m, mq=w.mass[a["mq"]], cfg=a["cfg"])
                out.append((call(fn, *args), ("value", fn, a, m), st))
        elif op == "low":
            lst = low_list(a["w"])
            fn = lst[a["k"] % len(lst)]
            args = call_args(fn, w.points[a["pt"]])
            out.append((call(fn, *args), ("low", fn, args, a["term"]), st))
        else:
            raise ToolError("op " + op)
        # nothing else moved: registers and configurations are what the specification says
        r = st["r"]
        out.append(("get", ("exact", "G %d %d %s" % (r["nc"], r["nf"], hx(w.mass[r["mq"]]))), st))
        cf = st["cfgs"]
        for i in sorted(used):
            c = cf[i - 1] if isinstance(cf, list) else cf[str(i)]
            out.append(("show %d" % i, ("exact", ("K %d %s %s" % (c["nc"], hx(w.g[c["g"]]), qtok(c["quarks"], w))).strip()), st))
    return out


def run_programs(chk, mode, num, batches, steps=None, focus_known=None):
    build()
    for b in range(batches):
        r = tlc("ApiSim", "ApiSim_" + mode, simulate=num, depth=60, seed=SEED * 1000 + b)
        if not r.lines:
            raise ToolError("ApiSim: " + r.error)
        chk.states += r.states
        chk.cov.setdefault("tlc", {})["ApiSim_%s batch %d" % (mode, b)] = {"generated": r.states, "programs": len(r.lines)}
        w = World(chk.rng, batch=b)
        replay_batch(chk, w, r.lines, focus_known)
        if len(chk.viol) > 30:
            return


def vacuum_noise(ref, s, fn, pt, terms, mass, m, chk):
    """What the closed forms are worth at this point: they cancel at small and at large momenta."""
    tot = 0.0
    for t in terms:
        f, low = ref.value(s, fn, pt, t["a"], mass[t["m"]] if t["m"] else None, m)
        if low:
            tot += abs(f) * t["n"] / t["d"] * noises([low], chk.rng, rel=1e-12)[key(low)]
    return 100 * tot


def replay_batch(chk, w, programs, known):
    ref = Atoms()
    progs = [compile_program(h, w, i) for i, h in enumerate(programs)]
    # reference values first, in processes of their own that never change a setting
    calls = []
    for p in progs:
        for line, e, st in p:
            if e[0] == "value":
                _, fn, a, m = e
                pt = w.points[a["pt"]]
                calls += list(ref.calls(a["s"], fn, pt, a["terms"], w.mass, m))
                calls += list(ref.calls(a["s"], fn, pt, a["built"], w.mass, m))
            elif e[0] == "low":
                calls.append((e[1], e[2]))
    uniq = list({(c[0], tuple(enc(x) for x in c[1])): c for c in calls}.values())
    refs = [Atoms() for _ in range(6)]
    parallel(lambda k: refs[k].prefetch(uniq[k::6]), range(6))
    for x in refs:
        ref.cache.update(x.cache)
        x.h.close()
    chk.count("atoms_evaluated", len(uniq))

    def one(p):
        h = Harness()
        h.fragile = True
        h.threads = sum(len(l) for l, _, _ in p) % 3      # settings and evaluations from other threads of the process, one at a time
        try:
            return h.cmds([l for l, _, _ in p])
        finally:
            h.close()
    answers = parallel(one, progs)
    for pi, (p, ans) in enumerate(zip(progs, answers)):
        chk.traces += 1
        for (line, e, st), got in zip(p, ans):
            if e[0] == "any":
                continue
            if isinstance(got, Err) and got.startswith("TIMEOUT"):
                chk.count("programs_cut_short")
                continue
            chk.n += 1
            if e[0] == "exact":
                ok = str(got).strip() == e[1] or (line == "get" and str(got).startswith(e[1] + " "))
                if not ok:
                    chk.violation("state differs from the specification", command=line, expected=e[1], got=str(got),
                                  program=[l for l, _, s in p if s["op"] != "q"][:40])
                    break
                continue
            v = dec(got)
            if e[0] == "low":
                _, fn, args, t = e
                base = ref.ev(fn, args)
                # the reference process has nc = 3
                f = {(True, False): 3.0 / t["d"], (False, True): t["n"] / 3.0}.get((t["d"] > 1 or low_class(fn) == "quark", low_class(fn) == "density"), 1.0)
                exp = base if isinstance(base, Err) or f == 1.0 else base * f
                if isinstance(exp, Err) and isinstance(v, Err):
                    continue
                # a quadrature stops at an absolute tolerance, before the weight is applied or after it
                quad = 0 if fn.split("#")[0].endswith("_i") or low_class(fn) == "free" else (4e-7 if "zero_matsubara" in fn else 4e-9) * (1 + abs(w.points[st["a"]["pt"]].mu)) ** 2
                if not close(v, exp, 1e-9, quad * max(1.0, f)):
                    chk.violation("low-level function does not follow the settings", function=fn, command=line, expected=str(exp),
                                  got=str(v), settings=st["r"])
                    break
                if f != 1.0:
                    chk.nontrivial.add(fn)
                continue
            _, fn, a, m = e
            s, pt = a["s"], w.points[a["pt"]]
            inv, slack = ref.sum(s, fn, pt, a["terms"], w.mass, m)
            chk.nontrivial.add((fn, len(a["terms"])))
            if matches(s, fn, pt, v, inv, slack, m):
                chk.sample(dict(command=line, value=str(v), denotation=[(t["n"], t["d"], t["a"], t["m"]) for t in a["terms"]]))
                continue
            if a["built"] != a["terms"] and known:
                binv, bslack = ref.sum(s, fn, pt, a["built"], w.mass, m)
                if matches(s, fn, pt, v, binv, bslack, m):
                    chk.known[known] = chk.known.get(known, 0) + 1
                    continue
            ref.sum(s, fn, pt, a["terms"], w.mass, m)
            if s["temp"] == "-" and matches(s, fn, pt, v, inv, slack + vacuum_noise(ref, s, fn, pt, a["terms"], w.mass, m, chk), m):
                chk.count("judged_by_their_noise")
                continue
            chk.violation("value differs from the specified denotation", function=fn, slack=slack, command=line, got=str(v),
                          inverse_dressing_expected=str(inv), built=str(ref.sum(s, fn, pt, a["built"], w.mass, m)), denotation=a["terms"], settings=st["r"],
                          configs=st["cfgs"], program=[l for l, x, _ in p if x[0] == "exact" and not l.startswith(("get", "show"))][:60])
            break
    if chk.cov.get("programs_cut_short", 0) > 0.1 * chk.traces:
        chk.violation("functions do not return", programs=chk.cov["programs_cut_short"])
