"""C10: every edge of the state graph of Integration.tla replayed, every function queried at every state."""
from api import *
from checks.c01 import tour

INIT = {"tol": 1e-10, "it": 50, "reg": 1e-5}
ORDER = ("tol", "it", "reg")
TOL = [1e-2, 1e-3, 1e-4, 1e-5, 1e-6, 1e-7, 1e-8, 1.0, 3e-9, 1.0000000000000002e-10, 9.999999999999998e-11, 1e-9]
TINY = [1e-12, 1e-14, 1e-17, 5e-324, 1e-300]
LIM = [0, 1, 2, 3, 4, 6, 8, 12, 49, 51, 60, 80, 200, 49, 51]
REG = [1e-4, 1e-3, 1e-2, 0.1, 0.3, 1.0, 3e-6, 2.5]
CFG = "new 0 3 %s 2:%s 1:%s"
METHODS = {"gauss": ["GL:7", "GL:16", "GL:13"],
           "rule": ["G10K21:%s:7" % hx(1e-3), "G15K31R:%s:5" % hx(1e-4), "G30K61:%s:3" % hx(1e-6), "NC:8", "G7K15R:%s:9" % hx(1e-5),
                    "G7K15:%s:2" % hx(1e-300)],
           "initial": ["G7K15:%s:50" % hx(1e-10)], "replaced": ["G7K15:%s:50" % hx(1e-8)]}
REL = 1e-10


def pools(rng, k):
    p = {}
    tol = TOL + ([10 ** rng.uniform(-8, -1)] * 3)
    p["tol"] = [tol[k % len(tol)], rng.choice(TOL)] if k % 4 != 3 else [rng.choice(TINY), rng.choice(TOL)]
    while p["tol"][0] == p["tol"][1]:
        p["tol"][1] = rng.choice(TOL)
    p["it"] = [LIM[(3 * k + k // 5) % len(LIM)], rng.choice(LIM[:8])]
    while p["it"][0] == p["it"][1]:
        p["it"][1] = rng.choice(LIM)
    p["reg"] = rng.sample(REG, 2)
    return {r: {"d": INIT[r], "a": p[r][0], "b": p[r][1]} for r in ORDER}


def slow(v):
    """States in which an adaptive rule may have to split down to the limit."""
    return v["tol"] < 5e-11 and v["it"] > 8


def method(rule, v):
    tol = {"d": v["d.tol"], "loose": 1e-8}.get(rule["tol"], v["tol"])
    it = v["d.it"] if rule["it"] == "d" else v["it"]
    return "I:G7K15:%s:%d" % (hx(tol), it)


def counterpart(fn):
    base, _, var = fn.partition("#")
    for c in (base + "_w_method", base + "_with_method"):
        n = c + ("#" + var if var else "")
        if n in functions():
            return n
    return None


def kind(fn):
    if "zero_matsubara::" not in fn:
        return "plain"
    return "zmghost" if "ghost" in fn else "zmgluon"


def classify(shapes):
    """Every function of the library belongs to exactly one class."""
    corr = {}
    for x in shapes:
        for f in variants(symbol(x["shape"])):
            corr[f] = x
    out = dict(corr=corr, bare=[], explicit=[], fixed=[])
    for f, (names, types) in functions().items():
        if f in corr:
            continue
        if "I" in types:
            out["explicit"].append(f)
        elif counterpart(f):
            out["bare"].append(f)
        else:
            out["fixed"].append(f)
    return out


def word(r, v):
    return str(v) if r == "it" else hx(v)


class Pass:
    """One process walking the graph; the references come from processes in which only the regulator was set."""

    def __init__(self, k, rng, edges, rules, cl, funcs, quick):
        self.k, self.rng, self.edges, self.rules, self.cl, self.funcs, self.quick = k, rng, edges, rules, cl, funcs, quick
        self.pool = pools(rng, k)
        self.viol, self.n, self.skipped, self.keys, self.samples = [], 0, 0, set(), []
        self.distinct = {}

    def values(self, node):
        v = {r: self.pool[r][node[r]] for r in ORDER}
        v["d.tol"], v["d.it"] = INIT["tol"], INIT["it"]
        return v

    def bad(self, what, node, **kw):
        self.viol.append(dict(what=what, node=node, values=str(self.pool), setup=self.setup, **kw))

    def run(self):
        try:
            return self._run()
        finally:
            for h in self.hs:
                h.close()

    def _run(self):
        pt = self.pt = Point(self.rng, lo=0.5, hi=2.0)
        if self.rng.random() < 0.6:
            # let the quarks contribute at zero temperature
            pt.mu = self.rng.choice([-1, 1]) * (1.2 + self.rng.random()) * max(pt.mq, 0.3)
        pt.en, pt.n = abs(pt.en), self.rng.choice([-1, 1]) * abs(pt.n)
        m2 = pt.mq * self.rng.uniform(0.3, 0.9)
        self.mass = {1: pt.mq, 2: m2}
        self.setup = [CFG % (0, 0, 0)] if False else ["new 0 3 %s 2:%s 1:%s" % (hx(pt.m), hx(pt.mq), hx(m2))]
        h = Harness(timeout=6)
        h.threads = self.rng.randrange(3)
        self.hs = [h]
        h.prologue = list(self.setup)
        h.cmds(self.setup)
        self.ref = {}
        for x in "dab":
            r = Harness(timeout=6)
            self.hs.append(r)
            r.prologue = self.setup + ["set reg %s" % hx(self.pool["reg"][x])]
            r.cmds(r.prologue)
            self.ref[x] = Atoms(r)
        start = dict(tol="d", it="d", reg="d")
        self.memo = {}
        self.queries = self.plan()
        walk, left = tour(self.edges, tuple(start[r] for r in ORDER))
        if left:
            raise ToolError("Integration.tla: unreachable edges")
        self.visit(h, start)
        for e in walk:
            u, (r, v), w = self.edges[e]
            a = h.cmd("set %s %s" % (r, word(r, self.pool[r][v])))
            node = dict(zip(ORDER, w))
            h.prologue = self.setup + ["set %s %s" % (x, word(x, self.pool[x][node[x]])) for x in ORDER if node[x] != "d"]
            if a != "OK":
                self.bad("setter failed", node, command=(r, v), got=str(a))
                return self
            self.visit(h, node)
            if len(self.viol) > 10:
                break
        return self

    # ---- what is asked
    def plan(self):
        q = []
        for f in self.funcs:
            if f in self.cl["corr"]:
                x = self.cl["corr"][f]
                kw = dict(m=self.pt.m, mq=self.pt.mq)
                q.append(("corr", f, call_args(f, self.pt, cfg=0, **kw), x))
            elif f in self.cl["bare_set"]:
                q.append(("bare", f, call_args(f, self.pt), counterpart(f)))
            elif f in self.cl["explicit_set"]:
                names, types = functions()[f]
                for label in ("gauss", "rule", "initial", "replaced"):
                    if label == "replaced" and kind(f) == "plain" and self.quick:
                        continue
                    meth = self.rng.choice(METHODS[label])
                    args = ["I:" + meth if t == "I" else a for a, t in zip(call_args(f, self.pt), types)]
                    q.append(("explicit", f, args, label))
            else:
                q.append(("fixed", f, call_args(f, self.pt, cfg=0), None))
        return q

    def keyof(self, q, node):
        what, f, args, x = q
        k = kind(f)
        if what == "fixed":
            return ("fixed",)
        reg = "-" if k == "plain" else node["reg"]
        if what == "explicit":
            return (x, reg)
        r = self.rules[tuple(node[y] for y in ORDER)][k]
        return (r["tol"], r["it"], reg)

    def visit(self, h, node):
        v = self.values(node)
        if slow(v):
            self.skipped += 1
            qs = [q for q in self.queries if q[0] in ("explicit", "fixed")]
        else:
            qs = self.queries
        t = tuple(node[r] for r in ORDER)
        first = t not in self.memo
        if not first:
            qs = self.rng.sample(qs, min(len(qs), 8 if self.quick else 25))
        seen = self.memo.setdefault(t, set())
        # the default method that the library reports is the one of the specification
        g = h.cmd("get").split()
        want = "G7K15:%s:%d" % (hx(v["tol"]), v["it"])
        if g[-1] != want:
            self.bad("default integration method", node, expected=want, got=g[-1])
        got = h.evs([(q[1],) + tuple(q[2]) for q in qs])
        self.prefetch(qs, node, v)
        for q, y in zip(qs, got):
            self.n += 1
            self.judge(q, node, v, y)

    def prefetch(self, qs, node, v):
        at = self.ref[node["reg"]]
        calls = []
        for what, f, args, x in qs:
            if what == "corr":
                with_methods(at, f, x, self, node, v)
                calls += list(at.calls(x["shape"], f, self.pt, x["terms"], self.mass, self.pt.m))
            elif what == "bare":
                calls.append(self.refcall(f, args, x, node, v))
            else:
                calls.append((f, args))
        at.prefetch(calls)

    def refcall(self, f, args, c, node, v):
        r = self.rules[tuple(node[y] for y in ORDER)][kind(f)]
        names, _ = functions()[f]
        d = dict(zip(names, args))
        d["integral"] = method(r, v)
        return c, [d[n] for n in functions()[c][0]]

    def judge(self, q, node, v, got):
        what, f, args, x = q
        at = self.ref[node["reg"]]
        key = (f, tuple(map(enc, args))) + self.keyof(q, node)
        # one key, one value
        old = self.memo.setdefault(("val",) + key, got)
        if not same(old, got):
            self.bad("value depends on more than the specification says", node, call=call(f, *args), key=str(key[2:]),
                     first=str(old), now=str(got))
            return
        if what == "corr":
            with_methods(at, f, x, self, node, v)
            try:
                s, slack = at.sum(x["shape"], f, self.pt, x["terms"], self.mass, self.pt.m)
            except ToolError:
                self.skipped += 1
                return
            # same rule, same regulator: only the rounding of the terms is left
            slack = sum(abs(z) for z in at.parts) * REL
            ok = matches(x["shape"], f, self.pt, got, s, slack, self.pt.m)
            exp = s
        else:
            c = self.refcall(f, args, x, node, v) if what == "bare" else (f, args)
            exp = at.ev(*c)
            if isinstance(exp, Err) and isinstance(got, Err):
                self.skipped += 1
                return
            ok = close(got, exp, REL)
        if not ok:
            self.bad("%s: not the value of the specified rule" % what, node, call=call(f, *args), got=str(got), expected=str(exp),
                     rule=str(self.keyof(q, node)))
        else:
            self.keys.add((f, self.keyof(q, node), self.k))
            if not isinstance(got, Err):
                self.distinct.setdefault((f, what), set()).add(enc(got))
            if len(self.samples) < 3:
                self.samples.append(dict(call=call(f, *args), node=node, rule=str(self.keyof(q, node)), value=str(got)))


def same(a, b):
    if isinstance(a, Err) or isinstance(b, Err):
        return isinstance(a, Err) and isinstance(b, Err)
    return enc(a) == enc(b) or close(a, b, 1e-13)


def with_methods(at, f, x, ps, node, v):
    """Makes the low-level references of a correlator use the rules of this state."""
    row = ps.rules[tuple(node[y] for y in ORDER)]
    at.methods = {"gen": method(row["plain"], v), "zp": method(row["plain"], v), "zm": method(row["zmgluon"], v)}
    at.method_ghost = method(row["zmghost" if x["shape"]["reg"] == "zm" else "plain"], v)


def regulator(chk, cl):
    """The zero-frequency integrals are the general ones at the current regulator: with a fixed rule there is no adaptivity
    that could hide a difference."""
    n = 40 if THOROUGH else 8
    jobs = []
    for i in range(n):
        pt = Point(chk.rng, lo=0.5, hi=2.0)
        pt.mu = chk.rng.choice([-1, 1]) * (1.2 + chk.rng.random()) * max(pt.mq, 0.3)
        reg = (REG + [1e-5])[i % (len(REG) + 1)]
        order = chk.rng.choice([9, 12, 16])
        jobs.append((pt, reg, "I:GL:%d" % order))

    def one(j):
        pt, reg, meth = j
        h = Harness(timeout=6)
        h.prologue = ["set reg %s" % hx(reg)]
        h.cmds(h.prologue)
        out = []
        for f in cl["explicit"]:
            if "zero_matsubara::" not in f:
                continue
            g = pick(f.replace("zero_matsubara::", ""), om="R", p="R")
            names, types = functions()[f]
            args = [meth if t == "I" else pt.arg(a, t) for a, t in zip(names, types)]
            d = dict(zip(names, args), om=reg)
            gargs = [complex(d[a]) if t == "C" else d[a] for a, t in zip(*functions()[g])]
            a, b = h.evs([(f,) + tuple(args), (g,) + tuple(gargs)])
            out.append((f, args, a, g, gargs, b, h.prologue))
        h.close()
        return out
    for res in parallel(one, jobs):
        for f, args, a, g, gargs, b, setup in res:
            chk.n += 1
            if isinstance(a, Err) or isinstance(b, Err):
                ok = False
            else:
                # the real part of the general integral; its imaginary part vanishes with the regulator
                ok = abs(complex(a).real - complex(b).real) <= 1e-8 * abs(b) + 1e-300
            if ok:
                chk.nontrivial.add(("regulator", f, setup[0]))
            else:
                chk.violation("zero-frequency function is not the general one at the regulator", setup=setup, call=call(f, *args),
                              got=str(a), general=call(g, *gargs), expected=str(b))


def main(chk):
    build()
    r = tlc("Integration")
    if not r.ok:
        raise ToolError("Integration.tla: " + r.error)
    chk.add_tlc(r, "Integration (exhaustive)")
    edges, seen, rules, shapes = [], set(), {}, []
    t = lambda s: tuple(s[x] for x in ORDER)
    for l in r.lines:
        if l["edge"]:
            e = (t(l["pre"]), (l["reg"], l["val"]), t(l["post"]))
            if e not in seen:
                seen.add(e)
                edges.append(e)
        elif "row" in l:
            rules[t(l["row"]["node"])] = l["row"]["rules"]
        else:
            shapes.append(l)
    cl = classify(shapes)
    cl["bare_set"], cl["explicit_set"] = set(cl["bare"]), set(cl["explicit"])
    thermal = {f for f in functions() if "::thermal::" in f and f.split("::")[0] in ("ym", "qcd")}
    rest = thermal - set(cl["corr"]) - cl["bare_set"] - cl["explicit_set"]
    rest = {f for f in rest if "zero_temp" not in f or "quark::" not in f}
    if rest:
        raise ToolError("thermal functions outside the specification: %s" % sorted(rest))
    live = list(cl["corr"]) + cl["bare"] + cl["explicit"]
    W, S = 8, 2
    reps = 40 if THOROUGH else 1
    jobs = []
    for rep in range(reps):
        chk.rng.shuffle(live)
        fixed = chk.rng.sample(cl["fixed"], len(cl["fixed"]))
        for k in range(W):
            fs = live[k % S::S] + fixed[k % S::S]
            kk = rep * W + k
            jobs.append(Pass(kk, random.Random("c10-%d-%d" % (SEED, kk)), edges, rules, cl, fs, not THOROUGH))
    t0 = time.time()
    done = 0
    with ThreadPoolExecutor(W) as ex:
        def go(p):
            if THOROUGH and time.time() - t0 > 500:
                return None
            return p.run()
        for p in ex.map(go, jobs):
            if p is None:
                continue
            done += 1
            chk.n += p.n
            chk.count("skipped", p.skipped)
            for v in p.viol:
                chk.violation(**v)
            chk.nontrivial |= p.keys
            for s in p.samples:
                chk.sample(s)
            chk.count("function_replays", len(p.distinct))
            chk.count("function_replays_where_the_rule_shows", sum(len(v) > 1 for (f, w), v in p.distinct.items() if w in ("bare", "corr")))
    regulator(chk, cl)
    chk.traces = done
    chk.cov["edges"] = len(edges)
    chk.cov["functions"] = {k: len(v) for k, v in cl.items()}
    chk.cov["rule"] = "one case = one function at one state of the graph: value compared with the counterpart under the specified rule (1e-10)"
    chk.assumptions.append("states whose tolerance cannot be reached within a reasonable depth are walked through without asking the adaptive functions")
