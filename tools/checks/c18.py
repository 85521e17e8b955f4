"""C18: the walks of Threads.tla and real threads; every answer is compared bit by bit with the answer of a process
that evaluated nothing else."""
import struct
from api import *

CFG = {  # index: (nc, gluon, quarks)
    0: (3, 0.656, [(2, 0.35), (1, 0.45)]), 1: (4, 0.656, [(2, 0.35), (1, 0.45)]), 2: (3, 0.71, [(2, 0.35), (1, 0.45)]),
    3: (3, 0.656, [(2, 0.35), (1, 0.47)]), 4: (3, 0.656, [(1, 0.35), (2, 0.45)]), 5: (3, 0.656, [(2, 0.35)])}
METHODS = ["I:G7K15:%s:50" % hx(1e-10), "I:G7K15:%s:50" % hx(1e-8), "I:G10K21:%s:50" % hx(1e-10), "I:G7K15:%s:20" % hx(1e-10)]


def setup():
    return ["new %d %d %s %s" % (k, nc, hx(g), " ".join("%d:%s" % (n, hx(m)) for n, m in q)) for k, (nc, g, q) in CFG.items()]


def ulp(x):
    if isinstance(x, complex):
        return complex(ulp(x.real), x.imag)
    return struct.unpack(">d", struct.pack(">q", struct.unpack(">q", struct.pack(">d", x))[0] + 1))[0]


def run_lines(lines, workers=7, timeout=30, setup_=None):
    """Answers of independent command lines, spread over a few processes."""
    hs = [Harness(timeout=timeout) for _ in range(workers)]
    for h in hs:
        h.prologue = setup_ or setup()
        h.cmds(h.prologue)

    def one(k):
        try:
            return hs[k].cmds(lines[k::workers])
        finally:
            hs[k].close()
    out = [None] * len(lines)
    for k, a in enumerate(parallel(one, range(workers), workers)):
        out[k::workers] = a
    return out


def siblings():
    """name -> another function with the same arguments."""
    by = {}
    for f, (a, t) in functions().items():
        by.setdefault((tuple(a), t), []).append(f)
    return {f: l[(i + 1) % len(l)] for l in by.values() for i, f in enumerate(l) if len(l) > 1}


def jlist():
    return {l.split()[0]: (l.split()[2].split(","), l.split()[1]) for l in run([EXE, "jlist"], check=True).stdout.splitlines()}


def slots(f, base, types, sib, rng, tiny):
    """The flips of a query: one per slot of the model (the function itself, then every argument)."""
    out = []
    if sib:
        out.append((sib, base))
    for i, (v, t) in enumerate(zip(base, types)):
        alts = []
        if t == "F":
            alts = ["F:%d" % k for k in range(1, len(CFG))]
        elif t == "I":
            alts = rng.sample(METHODS[1:], 1)
        else:
            w = v * rng.uniform(1.02, 1.3) if v != 0 else v + 0.3
            alts = [w] + ([v * (1 + 1e-9)] if v != 0 else []) + ([ulp(v)] if tiny and v != 0 else [])
            if t == "C":
                alts.append(v.conjugate())
        for w in alts:
            out.append((f, base[:i] + [w] + base[i + 1:]))
    return out


def line(q):
    return call(q[0], *q[1])


def main(chk):
    build()
    free = tlc("Threads", "ThreadsT" if THOROUGH else "Threads", workers=4)
    walk = tlc("Threads", "ThreadsWalk", workers=2)
    for r, n in ((free, "Threads"), (walk, "ThreadsWalk")):
        if not r.ok:
            raise ToolError(n + ": " + r.error)
        chk.add_tlc(r, n)
    events = walk.lines[0]["walk"]
    # the part of the walk that concerns one slot
    per_slot = [e for e in events if max(e["q"], e["by"]) in (1,) or (e["q"] == 0 and e["by"] == -1)][:9]
    seq = [e for e in per_slot if e["at"] == 0]
    nest = [e for e in per_slot if e["at"] > 0]
    if not seq or not nest:
        raise ToolError("unexpected walk")
    rng = chk.rng
    J = jlist()
    sib = siblings()
    from checks.c12 import heavy
    fns = list(functions())
    hx_ = Harness(timeout=3)
    hx_.prologue = setup()
    hx_.cmds(hx_.prologue)
    base = {}
    for f in fns:                      # a point at which the function is fast
        for k in range(30):
            pt = Point(rng)
            if "chemical_potential" in f or "charge_density" in f:
                pt.mu, pt.beta, pt.n = pt.mu or 0.4, max(pt.beta, 1), pt.n
            args = [("F:0" if t == "F" else METHODS[0] if t == "I" else pt.arg(n, t)) for n, t in zip(*functions()[f])]
            t0 = time.time()
            v = hx_.ev(f, *args, timeout=1)
            if not isinstance(v, Err) and v == v and time.time() - t0 < (0.06 if k < 22 else 0.6):
                base[f] = args
                break
    hx_.close()
    if len(base) < 0.97 * len(fns):
        raise ToolError("no fast point for %d functions" % (len(fns) - len(base)))
    chk.cov["functions"] = len(base)
    flips = {f: slots(f, base[f], functions()[f][1], sib.get(f) if sib.get(f) in base else None, rng, THOROUGH or not heavy(f)) for f in base}
    queries = {}
    for f in base:
        for q in [(f, base[f])] + flips[f]:
            queries.setdefault(line(q), q)
    lines = list(queries)
    solo = dict(zip(lines, run_lines(["fresh " + l for l in lines])))
    # neighbours at which the integral is slow or the value is not finite say nothing
    bad = {l for l, a in solo.items() if not a.startswith(("R ", "C "))}
    chk.cov["queries"] = len(lines)
    chk.cov["queries_without_value"] = len(bad)
    if len(bad) > 0.02 * len(lines):
        chk.violation("many single evaluations have no value in a fresh process", examples=[(l, solo[l]) for l in list(bad)[:5]])

    def judge(what, q, got, **info):
        chk.n += 1
        if q in bad:
            return
        if got != solo[q]:
            chk.violation(what, query=q, got=show(got), alone=show(solo[q]), setup=setup(), **info)
        else:
            chk.nontrivial.add((what, q.split()[1]))
    # --- one after the other: the sequential events of the walk, per function and slot, in one process per worker
    script = []
    for f in base:
        b = line((f, base[f]))
        if b in bad:
            continue
        for q in flips[f]:
            if line(q) not in bad:
                script += [(b if e["q"] == 0 else line(q)) for e in seq]
    order = list(dict.fromkeys(l for l in lines if l not in bad))
    rng.shuffle(order)
    script2 = order + list(reversed(order))
    for what, sc in (("an earlier call with other arguments changes the result", script), ("the order of the calls changes the result", script2)):
        hist = [sc[k * len(sc) // 7:(k + 1) * len(sc) // 7] for k in range(7)]

        def one(mine):
            h = Harness(timeout=30)
            h.cmds(setup())
            try:
                return h.cmds(mine)
            finally:
                h.close()
        for mine, ans in zip(hist, parallel(one, hist, 7)):
            for i, (l, a) in enumerate(zip(mine, ans)):
                judge(what, l, a, after=mine[max(0, i - 4):i])
    chk.traces += len(script) + len(script2)
    # --- preempted: another evaluation runs, on another thread, between the operations of this one
    jcases = []
    per = 99 if THOROUGH else 3
    for jf, (names, types) in J.items():
        f = next((x for x in variants(jf.split("#")[0]) if functions()[x][1] == types), None)
        if f not in base or line((f, base[f])) in bad:
            continue
        fl = [q for q in flips[f] if line(q) not in bad]
        for q in rng.sample(fl, min(per, len(fl))):
            jcases.append((jf, base[f], q))
            if q[0] == f:
                jcases.append((jf, q[1], (f, base[f])))
    js = {}
    for jf, a, _ in jcases:
        js[line((jf, a))] = None
    jl = list(js)
    for l, a in zip(jl, run_lines(["fresh sched " + l[5:] + "||" for l in jl])):
        js[l] = a
    todo = []
    P = 3
    for jf, a, q in jcases:
        l = line((jf, a))
        s = js[l]
        if not s.startswith(("R ", "C ")):
            continue
        n = int(s.split("|")[1])
        # the phases of the walk, as positions between the operations; and one drawn at random
        at = [1 + (e["at"] - 1) * (n - 1) // (P - 1) for e in nest[:3]] + [rng.randint(1, max(1, n))]
        for k in (at if THOROUGH else at[:1] + [rng.choice(at[1:])]):
            todo.append((l, k, q))
        if THOROUGH:
            todo.append((l, sorted(rng.randint(1, max(1, n)) for _ in range(5)), q))
    cmds = ["sched %s|%s|%s" % (l[5:], ";".join(map(str, k if isinstance(k, list) else [k])), line(q)[5:]) for l, k, q in todo]
    for (l, k, q), c, a in zip(todo, cmds, run_lines(cmds)):
        p = a.split("|")
        want = js[l].split("|")
        chk.n += 1
        if p[0] != want[0]:
            chk.violation("an evaluation on another thread changes the result", command=c, got=show(p[0]), alone=show(want[0]), setup=setup())
        else:
            chk.nontrivial.add(("preempted", l.split()[1]))
            for x in (p[2].split(";") if len(p) > 2 and p[2] else []):
                judge("evaluating on another thread gives another result", line(q), x, command=c)
    chk.cov["preempted"] = len(todo)
    chk.traces += len(todo)
    # --- real threads
    good = [l for l in lines if l not in bad]
    rounds = []
    fs = [f for f in base if line((f, base[f])) not in bad]
    for r in range(300 if THOROUGH else 60):
        jobs = []
        if r % 3 < 2:      # neighbours of a few functions against each other
            pool = []
            for f in rng.sample(fs, 3):
                pool += [line((f, base[f]))] + [line(q) for q in flips[f] if line(q) not in bad]
        else:
            pool = rng.sample(good, 60)
        for _ in range(8):
            jobs.append([rng.choice(pool) for _ in range(12)])
        rounds.append(jobs)
    ans = run_lines(["par " + "|".join(";".join(l[5:] for l in j) for j in jobs) for jobs in rounds], workers=2, timeout=120)
    for jobs, a in zip(rounds, ans):
        parts = [x.split(";") for x in a.split("|")]
        if len(parts) != len(jobs) or any(len(x) != len(j) for x, j in zip(parts, jobs)):
            chk.violation("threads did not finish", answer=a[:300], jobs=jobs)
            continue
        for j, x in zip(jobs, parts):
            for l, y in zip(j, x):
                judge("a result obtained among other threads differs", l, y)
    chk.traces += len(rounds)
    # --- a storm per function: every thread repeats one query of the same function, all at once
    storms = []
    for f in fs:
        q = [line((f, base[f]))] + [line(x) for x in flips[f] if line(x) not in bad]
        q = [q[0]] + rng.sample(q[1:], min(len(q) - 1, 7 if THOROUGH else 3))
        ms = (400 if heavy(f) else 150) if THOROUGH else 60 if heavy(f) or "density" in f or "chemical" in f else 20
        storms.append((q, ms))
    ans = run_lines(["storm %d|%s" % (ms, ";".join(l[5:] for l in q)) for q, ms in storms], workers=2, timeout=120)
    for (q, ms), a in zip(storms, ans):
        parts = a.split(";")
        if len(parts) != len(q):
            chk.violation("threads did not finish", answer=a[:300], queries=q)
            continue
        for l, x in zip(q, parts):
            for y in x.split("&"):
                judge("a result obtained among other threads differs", l, y, storm=q)
    chk.traces += len(storms)
    chk.cov["storms"] = len(storms)
    chk.sample(dict(round=[[x.split()[1] for x in j][:3] for j in rounds[0]][:3]))
    chk.sample(dict(walk=[queries[l][0] for l in script[:6]]))


def show(a):
    v = dec(a) if a.startswith(("R ", "C ")) else a
    return str(v)
