"""C21: programs of Numbers.tla run on both number types; promotions of Overloads.tla applied to every generic function."""
import cmath
from api import *
from checks.c07 import Lines, cdec, cenc, num
from checks.c12 import heavy, noisy

CFG = "new 0 5 %s 2:%s 1:%s" % (hx(0.7), hx(0.45), hx(0.8))
FORMS = "rtab"


def zero_imaginary(p):
    """The complex forms of the arguments get the real ones."""
    p.cfg = 0
    for a in list(vars(p)):
        if not a.endswith("C") and a != "cfg":
            setattr(p, a + "C", complex(getattr(p, a), 0))
    return p


def args(f, p):
    names, types = functions()[f]
    out = []
    for a, t in zip(names, types):
        v = p.arg(a, t, cfg=0)
        if a == "delta" and t == "C":
            v = complex(complex(v).real, 0)
        out.append(v)
    return out


def machine(chk):
    r = tlc("Numbers", cfg="NumbersT" if THOROUGH else None, mem="6g", timeout=600)
    if not r.ok:
        raise ToolError("Numbers: " + r.error)
    chk.add_tlc(r, "Numbers")
    lines = r.lines
    cmds = []
    for l in lines:
        w = ["%s:%s:%s" % (s["op"], "c" if s["k"]["im"] else chk.rng.choice(FORMS), cenc(num(s["k"]))) for s in l["prog"]]
        cmds.append("%s %s %s" % (l["start"]["t"], cenc(num(l["start"]["v"])), " ".join(w)))
    h = Lines("numbers")
    try:
        for l, c, ans in zip(lines, cmds, h.cmds(cmds)):
            chk.n += 1
            exp = num(l["v"])
            if isinstance(ans, Err) or len(ans.split()) != 2:
                chk.violation("an operation on numbers fails", program=l["prog"], start=l["start"], command=c, answer=str(ans))
                continue
            t, v = ans.split()
            v = cdec(v)
            if t != l["t"] or not close(v, exp, 1e-10, 1e-10):
                chk.violation("an operation on numbers gives another type or value", program=l["prog"], start=l["start"], command=c,
                              answer=ans, value=str(v), expected=str(exp), type=l["t"])
            else:
                chk.nontrivial.add(c)
    finally:
        h.close()
    chk.cov["programs"] = len(lines)


def overloads(chk):
    groups = {}
    for f in functions():
        groups.setdefault(f.split("#")[0], []).append(f)
    groups = {n: v for n, v in groups.items() if len(v) > 1}
    inst = {(n, functions()[f][1]): f for n, v in groups.items() for f in v}
    path = os.path.join(workdir(), "overloads.json")
    with open(path, "w") as fh:
        json.dump({n: [list(functions()[f][1]) for f in v] for n, v in groups.items()}, fh)
    r = tlc("Overloads", env={"VERIF_OVERLOADS": path})
    if not r.ok:
        raise ToolError("Overloads: " + r.error)
    chk.add_tlc(r, "Overloads")
    edges = sorted({(inst[l["f"], "".join(l["from"])], inst[l["f"], "".join(l["to"])]) for l in r.lines})
    chk.cov.update(generic_functions=len(groups), promotions=len(edges))
    rng = chk.rng
    su = (CFG,)
    light, slow = 300 if THOROUGH else 60, 40 if THOROUGH else 6
    pts = [zero_imaginary((Point, wide_point)[i % 2](rng)) for i in range(light)]
    hpts = [zero_imaginary(Point(rng)) for _ in range(slow)]
    for i, p in enumerate(hpts):
        p.beta = max(p.beta, 0.7)
        p.betaC = complex(p.beta, 0)
        p.mu = [1.6, 0.3, -1.4][i % 3] * p.mq
    pairs = [((a, args(a, p)), (b, args(b, p))) for a, b in edges for p in (hpts if heavy(a) else pts)]
    val = evaluate([c for x in pairs for c in x], setup=su, timeout=5)
    bad, skipped = [], 0
    for x, y in pairs:
        u, v = val[key(x)], val[key(y)]
        if any(isinstance(z, Err) and z.startswith("TIMEOUT") for z in (u, v)):
            skipped += 1
            continue
        chk.n += 1
        if isinstance(u, Err) or isinstance(v, Err):
            if not (isinstance(u, Err) and isinstance(v, Err)):
                bad.append((x, y))
            continue
        u, v = complex(u), complex(v)
        if not cmath.isfinite(u):
            chk.count("no_real_value")
        elif close(v, u, 1e-9) or max(abs(u), abs(v)) < 1e-250 or heavy(x[0]) and (close(v, u, 1e-6) or noisy(x[0], u, v, u, x[1])):
            chk.nontrivial.add(y[0])
        else:
            bad.append((x, y))
    if bad:
        nx, ny = noises([b[0] for b in bad], rng, su), noises([b[1] for b in bad], rng, su)
        for x, y in bad:
            u, v = val[key(x)], val[key(y)]
            if not isinstance(u, Err) and not isinstance(v, Err) and abs(complex(u) - complex(v)) <= 100 * (nx[key(x)] + ny[key(y)]):
                chk.count("judged_by_their_noise")
                continue
            chk.violation("a complex argument without imaginary part gives another value than the real one", real=call(x[0], *x[1]),
                          complex=call(y[0], *y[1]), real_value=str(u), complex_value=str(v), setup=su)
    chk.traces = len(pairs)
    chk.cov["skipped_slow"] = skipped


def main(chk):
    build()
    machine(chk)
    overloads(chk)
