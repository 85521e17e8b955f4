"""C06: every exported symbol against its native function; mixed programs of Bindings.tla in one process."""
import cmath
import importlib.util
import cabi
from api import *
from checks.c01 import CAbi, ORDER, DEF, word
from checks.c12 import heavy

HEADER = lambda: os.path.join(REPO, "target", "debug", "include", "qcd_sme.h")
BRIDGE = os.path.join(TARGET, "debug", "libvbridge.so")


class Bridge(Harness):
    def _start(self):
        self.p = subprocess.Popen([sys.executable, os.path.join(VERIF, "tools", "bridge.py"), BRIDGE, HEADER()],
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        self.buf = b""


def path(n):
    return n.split("#")[0].split("::")


def tables():
    sig = cabi.signatures(HEADER())
    syms, names = [], []
    for n, (ret, al) in sorted(sig.items()):
        if any(t not in ("R", "C") for _, t in al) or not al or n.startswith("set_"):
            continue
        base = n[:-9] if n.endswith("__complex") else n
        syms.append(dict(name=base.split("__"), types="".join(t for _, t in al), args=[a for a, _ in al]))
        names.append((n, ret, al))
    nats, keys = [], []
    for k, (a, t) in sorted(functions().items()):
        if set(t) <= {"R", "C"}:
            nats.append(dict(path=path(k), types=t, args=a))
            keys.append(k)
    return syms, names, nats, keys


def value_pools(rng):
    u = rng.choice
    ints = [1, 2, 4, 5, 6, 12, 100]
    pick3 = lambda l: dict(zip("abc", rng.sample(l, 3)))
    out = dict(nc=pick3([x for x in ints]), nf=pick3([0, 2, 3, 4, 6, 12]), mq=pick3([0.1, 0.35, 0.7, 1.3]),
               tol=pick3([1e-4, 1e-6, 1e-9, 1e-12]), it=pick3([3, 10, 20, 100]), reg=pick3([1e-3, 1e-4, 1e-2, 3e-6]))
    for r in out:
        out[r]["d"] = DEF[r]
    return out


def main(chk):
    build()
    syms, names, nats, keys = tables()
    tab = os.path.join(workdir(), "tables.json")
    json.dump(dict(syms=syms, nats=nats), open(tab, "w"))
    env = {"VERIF_TABLES": tab}
    num = 2500 if THOROUGH else 120
    r = tlc("Bindings", simulate=num, depth=60, seed=SEED, env=env, timeout=800)
    if not r.ok:
        raise ToolError("Bindings: " + r.error)
    chk.states += r.states
    chk.transitions += r.states
    stat = [x for x in r.lines if isinstance(x, dict)][0]
    progs = [x for x in r.lines if isinstance(x, list)]
    pairs = sorted((i - 1, j - 1) for i, j in stat["pairs"])
    chk.cov["symbols"] = len(syms)
    chk.cov["bound"] = len(pairs)
    chk.cov["unbound"] = [names[i - 1][0] for i in stat["unbound"]]
    missing(chk, {names[i][0] for i, _ in pairs})

    # exhaustive pass: every symbol, independent arguments, initial registers
    npts = 60 if THOROUGH else 12
    pts = [Point(chk.rng, lo=0.05, hi=8) for _ in range(npts)]
    for k, p in enumerate(pts):
        if k % 3 == 1:
            p.sC, p.omC, p.pC = p.sC.conjugate() * -1, -p.omC, p.pC.conjugate()
    nw = 150 if THOROUGH else 24
    wild = [wild_point(chk.rng) for _ in range(nw)]
    cl, ccl, lab = [], [], []
    for i, j in pairs:
        n, ret, al = names[i]
        for p in pts + ([] if heavy(keys[j]) or "charge_density" in keys[j] or "chemical_potential" in keys[j] else wild):
            a = args_for(keys[j], p)
            cl.append((keys[j], a))
            ccl.append("eval %s %s" % (n, " ".join(enc(x) for x in a)))
            lab.append((n, keys[j]))
            # by name: the header's argument names mean what the native ones mean
            if sorted(x for x, _ in al) == sorted(functions()[keys[j]][0]) and [x for x, _ in al] != functions()[keys[j]][0]:
                d = dict(zip(functions()[keys[j]][0], a))
                cl.append((keys[j], a))
                ccl.append("eval %s %s" % (n, " ".join(enc(d[x]) for x, _ in al)))
                lab.append((n, keys[j]))
    nat = evaluate(cl, timeout=20)
    h = CAbi(HEADER())
    got = h.cmds(ccl)
    h.close()
    for c, l, g, (n, f) in zip(cl, ccl, got, lab):
        chk.n += 1
        compare(chk, n, f, l, nat[key(c)], dec(g), "initial settings")
        chk.nontrivial.add(n)
    wrappers(chk, nat, cl, ccl, lab)
    # mixed programs in one process
    for k, prog in enumerate(progs):
        mixed(chk, prog, pairs, names, keys, pts)
        if len(chk.viol) > 20:
            break
    chk.assumptions.append("symbol names follow Mangle of Bindings.tla; the committed list spec/exports.json is what C users rely on")


class Pyx(Harness):
    def _start(self):
        self.p = subprocess.Popen([sys.executable, os.path.join(VERIF, "tools", "pyx.py"), SO, HEADER()[:-1] + "pxd", PYX],
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        self.buf = b""
        self.hello = self._readline(60)


PYX = os.path.join(REPO, "python", "pyqcd_sme_so.pyx")


def wrappers(chk, nat, cl, ccl, lab):
    """The headers for C++ and Cython declare what the one for C does; the Cython module returns what the native functions do."""
    want = cabi.signatures(HEADER())
    for ext in ("hpp", "pxd"):
        p = HEADER()[:-1] + ext
        got = cabi.signatures(p) if os.path.exists(p) else {}
        for n in sorted(set(want) | set(got)):
            chk.n += 1
            if want.get(n) != got.get(n):
                chk.violation("the generated headers disagree", header=ext, symbol=n, c=str(want.get(n)), other=str(got.get(n)))
    if not os.path.exists(PYX):
        return
    h = Pyx()
    try:
        if h.hello.startswith("NOT-PYTHON"):
            chk.assumptions.append("the Cython module is not plain Python besides cimports and was not executed")
            return
        if h.hello != "READY":
            chk.violation("the Cython module does not load", answer=str(h.hello))
            return
        mods = h.cmd("list").split()[1:]
        todo = [(c, l, n, f) for c, l, (n, f) in zip(cl, ccl, lab) if n in mods]
        got = h.cmds([l for _, l, _, _ in todo])
        for (c, l, n, f), g in zip(todo, got):
            a = nat[key(c)]
            chk.n += 1
            if not isinstance(a, Err) and cmath.isfinite(complex(a)):
                compare(chk, n, f, l, a, dec(g), "Cython module")
        chk.cov["wrapped"] = len(mods)
    finally:
        h.close()


def wild_point(rng):
    """Arguments anywhere: negative, zero, equal to each other, tiny, huge, above and below each other."""
    p = Point(rng, lo=0.01, hi=30)
    for k in ("om", "p", "s", "m", "mq", "m1", "m2", "beta", "q", "en", "x", "n", "mu", "f0", "g0", "xi"):
        c = rng.randrange(9)
        v = getattr(p, k)
        v = {0: 0.0, 1: -v, 2: v * 1e-7, 3: v * 1e6, 4: 1.0, 5: float(rng.randrange(-3, 4))}.get(c, v)
        setattr(p, k, v)
        if hasattr(p, k + "C") and c < 6:
            setattr(p, k + "C", complex(v, rng.choice([0.0, -0.0, v, -v, 0.3])))
    e = math.hypot(p.q, p.mq)
    k = rng.randrange(8)
    if k < 5:
        # about the energy, with both signs
        p.mu = rng.choice([1, -1]) * e * {0: 0.5, 1: 1.0, 2: 1.5, 3: 4.0, 4: 1 + 1e-9}[k]
    if rng.random() < 0.3:
        p.m2 = p.m1
    p.muC = complex(p.mu, rng.choice([0.0, 0.1, -0.2]))
    return p


def args_for(fn, p):
    # in functions of given logarithms these are independent arguments
    return call_args(fn, p)


def missing(chk, bound):
    want = json.load(open(os.path.join(SPEC, "exports.json")))
    for n in want:
        if n not in bound:
            chk.violation("symbol no longer exported with the types of its native function", symbol=n)


def compare(chk, n, f, line, a, b, where):
    ok = (isinstance(a, Err) and isinstance(b, Err)) or close(b, a, 1e-11)
    if ok and isinstance(a, complex) != isinstance(b, complex):
        ok = False
    if ok:
        chk.sample(dict(symbol=n, native=f, call=line, value=str(b)))
    else:
        chk.violation("foreign value differs from the native one", symbol=n, native=f, call=line, native_value=str(a),
                      foreign_value=str(b), where=where)
    return ok


def mixed(chk, prog, pairs, names, keys, pts):
    pool = value_pools(chk.rng)
    steps = [s for s in prog if isinstance(s, dict)]
    lines, exp = [], []
    ref = []
    for s in steps:
        regs = " ".join(word(r, pool[r][s["r"][r]]) for r in ORDER)
        if s["op"] == "set":
            lines.append(("n " if s["face"] == "native" else "c ") + "set %s %s" % (s["reg"], word(s["reg"], pool[s["reg"]][s["val"]])))
            exp.append(("exact", "OK", s))
        else:
            i, j = pairs[s["pair"] % len(pairs)]
            p = pts[s["pt"] % len(pts)]
            a = args_for(keys[j], p)
            if s["face"] == "native":
                lines.append("n " + call(keys[j], *a))
            else:
                lines.append("c eval %s %s" % (names[i][0], " ".join(enc(x) for x in a)))
            exp.append(("value", len(ref), (names[i][0], keys[j])))
            ref.append(["set %s %s" % (r, word(r, pool[r][s["r"][r]])) for r in ORDER] + [call(keys[j], *a)])
        for face in "nc":
            lines.append(face + " get")
            exp.append(("get", "G " + regs, s))
    h = Harness()
    rv = h.cmds([l for x in ref for l in x])[len(ORDER)::len(ORDER) + 1]
    h.close()
    b = Bridge()
    got = b.cmds(lines)
    b.close()
    chk.traces += 1
    for l, e, g in zip(lines, exp, got):
        chk.n += 1
        if e[0] == "value":
            if not compare(chk, e[2][0], e[2][1], l, dec(rv[e[1]]), dec(g), "mixed program"):
                return
        elif e[0] == "exact" and str(g) != e[1] or e[0] == "get" and not (str(g) + " ").startswith(e[1] + " "):
            chk.violation("the interfaces do not share the settings", command=l, expected=e[1], got=str(g), program=lines[:60])
            return
