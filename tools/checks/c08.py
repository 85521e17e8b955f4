"""C08: every behaviour of Residue.tla replayed on compute_residue* and spectral_function*."""
from checks.c07 import *


def main(chk):
    build()
    r = tlc("Residue", workers=4, mem="6g")
    if not r.ok:
        raise ToolError("Residue: " + r.error)
    chk.add_tlc(r, "Residue")
    lines, seen = [], set()
    for l in r.lines:       # both orders of the two calls end in the same line
        k = json.dumps(l, sort_keys=True)
        if k not in seen:
            seen.add(k)
            lines.append(l)
    chk.cov["behaviours"] = len(lines)
    passes = 40 if THOROUGH else 4
    for k in range(passes):
        one_pass(chk, lines, k)
    default_step(chk, lines)
    chk.assumptions.append("values equal or zero at both points (an undefined quotient) are not compared")


def table(l, P, g):
    return [cenc(P(num(l["plus"]))) + "=" + cenc(g * num(l["u"])), cenc(P(num(l["minus"]))) + "=" + cenc(g * num(l["v"]))]


def one_pass(chk, lines, k):
    # z -> a z + b with a > 0 real (the step scales by a), values scale by g
    rng = chk.rng
    cmds, exp, used = [], [], []
    for l in lines:
        a = [1.0, 10 ** rng.uniform(-9, 0), 2.0 ** rng.randrange(-20, 20), 10 ** rng.uniform(-4, 2)][k % 4]
        b = complex(rng.uniform(-1, 1) * a, rng.uniform(-1, 1) * a) if k % 2 else 0
        if k % 4 == 2 and rng.random() < 0.5:
            # far from the origin, where the two points do not differ
            b = rng.choice([1, -1]) * a * 10 ** rng.uniform(0, 8) * (1j if l["kind"] == "res" else 1)
        g = [1.0, 10 ** rng.uniform(-6, 6), -1.0, complex(rng.uniform(-2, 2), rng.uniform(.1, 2))][k % 4]
        eps = a * num(l["eps"]).real
        real = all(num(l[x]).imag == 0 for x in ("z", "plus", "minus", "u", "v"))
        for ty in ("R", "C"):
            if ty == "R" and (l["kind"] == "spec" or not real):
                continue
            gg, bb = (abs(g), complex(b).real) if ty == "R" else (g, b)
            P = lambda z: a * z + bb
            tab = table(l, P, gg)
            z = P(num(l["z"]))
            if l["kind"] == "res":
                cmds.append("res %s %s %s %s %s" % (ty, hx(eps), cenc(z), cenc(complex(math.nan, 0)), " ".join(tab)))
                exp.append(gg * a * num(l["out"]))
            else:
                cmds.append("spec %s %s %s %s" % (hx(eps), cenc(z), cenc(complex(math.nan, 0)), " ".join(tab)))
                exp.append(gg * num(l["out"]) / (2 * math.pi))
            used.append((l, [P(num(l["plus"])), P(num(l["minus"]))], a, ty))
    run_compare(chk, cmds, exp, used)


def run_compare(chk, cmds, exp, used):
    h = Lines("roots")
    ans = h.cmds(cmds)
    h.close()
    for c, e, (l, pts, a, ty), s in zip(cmds, exp, used, ans):
        chk.n += 1
        chk.traces += 1
        why = None
        if isinstance(s, Err) or s.startswith("PANIC"):
            why = "did not return"
        else:
            head, log = parse(s)
            v = cdec(head[1]) if head[0] == "C" else complex(xh(head[1]))
            for z, _ in log:
                if min(abs(z - p) for p in pts) > 1e-6 * a:
                    why = "the function was called at another point"
            if not why and len({min(range(2), key=lambda i: abs(z - pts[i])) for z, _ in log}) != 2:
                why = "the function was not called at both points"
            if not why and not abs(v - e) <= 1e-9 * abs(e) + 1e-9 * scale(l, c):
                why = "value differs from the definition"
        if why:
            chk.violation(why, command=c, expected=str(e), answer=str(s), behaviour=l)
            if len(chk.viol) > 20:
                return
        else:
            chk.nontrivial.add((l["kind"], l["fam"], ty, json.dumps(l["eps"])))
            chk.sample(dict(command=c, answer=s[:200], expected=str(e)))


def scale(l, c):
    """Rounding of the two values, relevant where they nearly cancel (spectral functions only)."""
    if l["kind"] == "res":
        return 0.0
    return max(abs(cdec(e.split("=")[1])) for e in c.split()[4:]) * 1e-3


def default_step(chk, lines):
    """The forms without a step use 1E-12, wherever the point is; it is moved away along the direction in which the
    two points do not differ (exactly), or a little in the other one."""
    e0 = 1e-12
    cmds, exp, used = [], [], []
    rng = chk.rng
    for l, far in ((l, far) for l in lines if num(l["eps"]) == 1 for far in (False, True)):
        b = 0
        if far:
            b = rng.choice([1, -1]) * 10 ** rng.uniform(-3, 6)
            b = complex(0, b) if l["kind"] == "res" else b
        P = lambda z: e0 * z + b
        g = 1.0
        tab = table(l, P, g)
        z = P(num(l["z"]))
        real = all(num(l[x]).imag == 0 for x in ("z", "plus", "minus", "u", "v"))
        for ty in ("R", "C"):
            if ty == "R" and (l["kind"] == "spec" or not real or far):
                continue
            if l["kind"] == "res":
                cmds.append("res %s - %s %s %s" % (ty, cenc(z), cenc(complex(math.nan, 0)), " ".join(tab)))
                exp.append(e0 * num(l["out"]))
            else:
                cmds.append("spec - %s %s %s" % (cenc(z), cenc(complex(math.nan, 0)), " ".join(tab)))
                exp.append(num(l["out"]) / (2 * math.pi))
            used.append((l, [P(num(l["plus"])), P(num(l["minus"]))], e0, ty))
    run_compare(chk, cmds, exp, used)
