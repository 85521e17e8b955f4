"""C03: random programs of Api.tla (mode "isolated") replayed; schedules of Interference.tla, in which settings are written
while a function of a field configuration is being evaluated, replayed by preemption, and free-running writers."""
from programs import *
from checks.c02 import model
from checks.c18 import run_lines, jlist, show

CONFIGS = {  # index: (nc, gluon, quarks)
    0: (4, 0.656, [(2, 0.35), (1, 0.45)]), 1: (2, 0.71, [(3, 0.62)]), 2: (5, 0.5, []), 3: (6, 0.83, [(0, 0.4), (0, 0.9)])}
DEF = {"nc": 3, "nf": 1, "mq": 0.5}


def prologue():
    return ["new %d %d %s %s" % (k, nc, hx(g), " ".join("%d:%s" % (n, hx(m)) for n, m in q)) for k, (nc, g, q) in CONFIGS.items()]


def concrete(r, v, c):
    nc, g, q = CONFIGS[c]
    if v == "i":
        return DEF[r]
    if v == "o":
        return {"nc": 9, "nf": 7, "mq": 1.25}[r]
    return {"nc": nc, "nf": q[0][0] if q else 0, "mq": q[0][1] if q else g}[r]


def word(r, x):
    return hx(x) if r == "mq" else str(x)


def flavored(f, c):
    # an entry without flavors contributes nothing, but its integral is evaluated, and need not converge while nc changes
    return "thermal" in f and bool(CONFIGS[c][2])


def key(x):
    return json.dumps(x, sort_keys=True)


def choose(lines, rng, cover, extra):
    """Schedules of which every fault is exposed by several."""
    scheds = {key(l["schedule"]): l["schedule"] for l in lines if "schedule" in l}
    by = {}
    for l in lines:
        if "fault" in l:
            by.setdefault(key(l["fault"]), []).append(key(l["exposedby"]))
    if not by or not scheds:
        raise ToolError("Interference.tla printed no schedules")
    chosen, hits = [], {}
    for k in range(cover):
        for f in sorted(by):
            if hits.get(f, 0) <= k:
                s = rng.choice(by[f])
                chosen.append(s)
                for g, l in by.items():
                    if s in l:
                        hits[g] = hits.get(g, 0) + 1
    chosen += rng.sample(sorted(scheds), min(extra, len(scheds)))
    return [scheds[s] for s in dict.fromkeys(chosen)], len(by), len(scheds)


def interference(chk):
    build()
    r = tlc("Interference", workers=4)
    if not r.ok:
        raise ToolError("Interference.tla: " + r.error)
    chk.add_tlc(r, "Interference (exhaustive)")
    rng = chk.rng
    J = {f: v for f, v in jlist().items() if "_w_field_config" in f}
    real = [f for f, (a, t) in functions().items() if "F" in t]
    if len(real) < 60:
        raise ToolError("few functions of a field configuration")
    chk.cov["functions_preempted"] = len(J)
    # points at which a function is fast for every configuration
    h = Harness(timeout=5)
    h.prologue = prologue()
    h.cmds(h.prologue)
    args = {}
    for f in real + sorted(J):
        names, types = functions()[f] if f in functions() else J[f]
        g = f if f in functions() else next((x for x in variants(f.split("#")[0]) if functions()[x][1] == types), None)
        for c in CONFIGS:
            for k in range(40):
                pt = Point(rng)
                if g is None:
                    break
                a = [("F:%d" % c if t == "F" else pt.arg(n, t)) for n, t in zip(names, types)]
                t0 = time.time()
                v = h.ev(g, *a, timeout=1)
                if not isinstance(v, Err) and v == v and time.time() - t0 < (0.03 if k < 30 else 0.5):
                    args[f, c] = a
                    break
    h.close()
    if len(args) < 0.9 * len(CONFIGS) * len(real):
        raise ToolError("no fast point for many functions")

    def lines(cmds, timeout=60):
        return run_lines(cmds, timeout=timeout, setup_=prologue())
    # --- preempted
    jl = [x for x in args if x[0] in J]
    solo = {}
    for x, a in zip(jl, lines(["fresh sched %s||" % call(x[0], *args[x])[5:] for x in jl])):
        if a.startswith(("R ", "C ")):
            p = a.split("|")
            solo[x] = (p[0], int(p[1]))
    todo = []
    for x in sorted(solo):
        f, c = x
        val, n = solo[x]
        sch, nf, ns = choose(r.lines, rng, 2 if THOROUGH else 1, 60 if THOROUGH else 6)
        chk.cov["faults"], chk.cov["schedules"] = nf, ns
        if not THOROUGH:
            sch = rng.sample(sch, min(len(sch), 14))
        for s in sch:
            if not s:
                continue
            # the phases as positions in this evaluation: the first operation, one in the middle, one near the end
            pos = {1: 1, 2: rng.randint(2, max(2, n - 1)), 3: n}
            if flavored(f, c) and any(w["r"] == "nc" for w in s):
                # finding D1: the number of colors is read. The settings are judged all the same
                judged = False
            else:
                judged = True
            # positions are distinct, in growing order
            at, used = [], 0
            for w in s:
                used = max(used + 1, pos[w["at"]])
                at.append(used)
            if used > n:
                d = used - n
                at = [max(1, k - d) for k in at]
                if len(set(at)) < len(at):
                    continue
            todo.append((x, s, at, judged))
    cmds = []
    for x, s, at, _ in todo:
        f, c = x
        cmds.append(["set %s %s" % (q, word(q, concrete(q, "i", c))) for q in DEF]
                    + ["sched %s|%s|%s" % (call(f, *args[x])[5:], ";".join(map(str, at)),
                                           ";".join("set %s %s" % (w["r"], word(w["r"], concrete(w["r"], w["v"], c))) for w in s)), "get"])
    flat = run_groups(cmds)
    for (x, s, at, judged), cm, ans in zip(todo, cmds, flat):
        f, c = x
        chk.n += 1
        reg = dict(DEF)
        got = ans[-2].split("|")
        # an evaluation may take fewer operations than it did alone (D1): the rest of the writes did not happen
        done = [x for x in got[2].split(";") if x] if len(got) > 2 else []
        for w in s[:len(done)]:
            reg[w["r"]] = concrete(w["r"], w["v"], c)
        want = "G %d %d %s " % (reg["nc"], reg["nf"], hx(reg["mq"]))
        if len(done) < len(s):
            chk.cov["writes_not_reached"] = chk.cov.get("writes_not_reached", 0) + 1
        if not ans[-1].startswith(want):
            chk.violation("an evaluation changed the settings", command=cm[-2], expected=want, got=ans[-1], setup=prologue())
        if not judged:
            chk.cov["not_judged_because_of_D1"] = chk.cov.get("not_judged_because_of_D1", 0) + 1
            continue
        if got[0] != solo[x][0]:
            chk.violation("settings written while a function of a field configuration was running changed its result", command=cm[-2],
                          schedule=s, got=show(got[0]), alone=show(solo[x][0]), setup=prologue())
        else:
            chk.nontrivial.add(("preempted", f, c))
    chk.cov["preempted"] = len(todo)
    chk.traces += len(todo)
    # --- free-running writers: all the types of arguments, real ones included
    ham = [x for x in args if x[0] in functions() and (THOROUGH or (rng.random() < 0.5))]
    base = dict(zip(ham, lines(["fresh " + call(x[0], *args[x]) for x in ham])))
    cmds = []
    for f, c in ham:
        regs = [q for q in DEF if not (q == "nc" and flavored(f, c))]
        cmds.append(["set %s %s" % (q, word(q, DEF[q])) for q in DEF] + ["hammer %s|%s|%d" % (call(f, *args[f, c])[5:],
                                          ";".join("%s %s" % (q, " ".join(word(q, concrete(q, v, c)) for v in "coi")) for q in regs), 60 if THOROUGH else 12)])
    for x, cm, ans in zip(ham, cmds, run_groups(cmds, 3)):
        chk.n += 1
        if base[x].startswith(("R ", "C ")):
            if ans[-1] != base[x]:
                chk.violation("settings written by another thread changed the result for a field configuration", command=cm[-1],
                              got=[show(y) for y in ans[-1].split("|")][:5], alone=show(base[x]), setup=prologue())
            else:
                chk.nontrivial.add(("hammered", x))
    chk.cov["hammered"] = len(ham)
    chk.traces += len(ham)
    chk.sample(dict(schedule=todo[0][1], command=cmds[0][0]) if todo else dict(command=cmds[0][0]))


def run_groups(groups, workers=7):
    """Answers of groups of commands; a group stays in one process."""
    def one(k):
        h = Harness(timeout=60)
        h.prologue = prologue()
        h.cmds(h.prologue)
        try:
            return [h.cmds(g) for g in groups[k::workers]]
        finally:
            h.close()
    out = [None] * len(groups)
    for k, a in enumerate(parallel(one, range(workers), workers)):
        out[k::workers] = a
    return out


def main(chk):
    model(chk)
    n, b = (150, 40) if THOROUGH else (150, 2)
    run_programs(chk, "isolated", n, b, focus_known="D1")
    interference(chk)
