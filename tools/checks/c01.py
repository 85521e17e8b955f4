"""C01: every edge of the state graph of Settings.tla is replayed on the real settings."""
from vlib import *
import math

DEF = {"nc": 3, "nf": 1, "mq": 0.5, "tol": 1e-10, "it": 50, "reg": 1e-5}
ORDER = ["nc", "nf", "mq", "tol", "it", "reg"]
INT = {"nc", "nf", "it"}


def word(r, v):
    return str(v) if r in INT else hx(v)


def pools(rng, k):
    """Concrete values for "a" and "b" of each register (distinct from each other and from the default), and
    the pool of refused values."""
    ints = [0, 1, 2, 4, 5, 6, 7, 8, 10, 12, 49, 51, 100, 255, 256, 65535, 65536, 2**31 - 1, 2**31, 2**32 - 1]
    reals = [0.0, -0.0, 1.0, -1.0, 0.35, -0.5, 5e-324, 1e-308, 1e308, math.inf, -math.inf, math.nan, 1e-3, 125.0, 0.5000000000000001]
    pos = [1.0, 5e-324, 2.2250738585072014e-308, 1e-300, 1e-16, 1e-12, 1e-9, 1e-8, 1e-6, 1e-5, 1e-4, 1e-3, 0.5, 2.0, 1e10, 1e300, math.inf]
    out = {}
    for r in ORDER:
        p = ints if r in INT else (pos if r in ("tol", "reg") else reals)
        p = [x for x in p if not (x == DEF[r])]
        p = p + ([rng.randrange(2**32) for _ in range(2)] if r in INT else [10 ** rng.uniform(-12, 3) for _ in range(2)])
        i = rng.randrange(len(p))
        if k < len(p):
            i = k
        j = rng.choice([x for x in range(len(p)) if x != i and (hx(p[x]) != hx(p[i]) if r not in INT else p[x] != p[i])])
        out[r] = {"d": DEF[r], "a": p[i], "b": p[j]}
    bad = [0.0, -0.0, -1.0, -5e-324, -1e-10, -math.inf, math.nan, -1e300, -1e-5]
    for r in ("tol", "reg"):
        out[r]["x"] = bad[k % len(bad)] if k < len(bad) else rng.choice(bad)
    return out


def tour(edges, start):
    """A walk over the whole graph that takes every edge at least once (greedy, BFS to the next unused edge)."""
    from collections import defaultdict, deque
    out = defaultdict(list)
    for i, (u, _, v) in enumerate(edges):
        out[u].append(i)
    unused = {u: set(l) for u, l in out.items()}
    left = len(edges)
    u, walk = start, []
    while left:
        if unused.get(u):
            # prefer an edge that leads to a node that still has unused edges
            i = max(unused[u], key=lambda e: (len(unused.get(edges[e][2], ())) > 0, -e))
            unused[u].discard(i)
            left -= 1
            walk.append(i)
            u = edges[i][2]
            continue
        prev, dq, seen, goal = {}, deque([u]), {u}, None
        while dq and goal is None:
            x = dq.popleft()
            for e in out[x]:
                y = edges[e][2]
                if y not in seen:
                    seen.add(y)
                    prev[y] = (x, e)
                    if unused.get(y):
                        goal = y
                        break
                    dq.append(y)
        if goal is None:
            break
        path = []
        while goal != u:
            x, e = prev[goal]
            path.append(e)
            goal = x
        path.reverse()
        walk += path
        u = edges[path[-1]][2]
    return walk, left


def main(chk):
    build()
    r = tlc("Settings")
    if not r.ok:
        raise ToolError("Settings.tla: " + r.error)
    chk.add_tlc(r, "Settings (exhaustive)")
    key = lambda s: tuple(s[x] for x in ORDER)
    edges, seen = [], set()
    for l in r.lines:
        a = l["act"]
        lab = (a["op"], a["reg"], a["val"], a["via"])
        e = (key(l["pre"]), lab, key(l["post"]))
        if e not in seen:
            seen.add(e)
            edges.append(e)
    start = ("d",) * 6
    chk.cov["edges"] = len(edges)
    walk, left = tour(edges, start)
    if left:
        raise ToolError("Settings.tla: %d edges unreachable" % left)
    header = os.path.join(REPO, "target", "debug", "include", "qcd_sme.h")
    n = 60 if THOROUGH else 14
    for k in range(n):
        pool = pools(chk.rng, k)
        cabi_too = k % 2 == 0
        hs = [("rust", Harness())]
        if cabi_too:
            hs.append(("c", CAbi(header)))
        hs[0][1].threads = (k + 1) % 3        # from as many other threads of the process, in turn
        for name, h in hs:
            replay(chk, name, h, edges, walk if k % 2 == 0 or THOROUGH else walk[: len(walk) // 3], pool, start)
            h.close()
        if len(chk.viol) > 20:
            break
    chk.cov["rule"] = "one case = one edge of the state graph replayed (setter call, then all getters compared bit for bit)"


class CAbi(Harness):
    def __init__(self, header):
        self.header = header
        super().__init__()

    def _start(self):
        self.p = subprocess.Popen([sys.executable, os.path.join(VERIF, "tools", "cabi.py"), SO, self.header],
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        self.buf = b""


def expected(state, pool, with_method):
    vals = [pool[r][s] for r, s in zip(ORDER, state)]
    w = [word(r, v) for r, v in zip(ORDER, vals)]
    g = "G " + " ".join(w)
    if with_method:
        g += " G7K15:%s:%s" % (w[3], w[4])
    return g


def replay(chk, name, h, edges, walk, pool, start):
    lines, exp, labs = ["get"], [expected(start, pool, name == "rust")], [("init",)]
    for i in walk:
        u, (op, reg, val, via), v = edges[i]
        if op == "set":
            lines.append("set %s %s" % (reg, word(reg, pool[reg][val])))
            exp.append("OK")
        else:
            if name == "c":
                continue  # a refused value aborts the foreign process; covered by `refusals`
            lines.append("tryset %s %s" % (reg, word(reg, pool[reg][val])))
            exp.append("PANIC")
        labs.append((u, op, reg, val, v))
        lines.append("get")
        exp.append(expected(v, pool, name == "rust"))
        labs.append((u, op, reg, val, v))
    if name == "rust" and not THOROUGH:
        # forking is the slow part: keep a bounded number of refusals per pass
        keep, nref = [], 0
        for j, l in enumerate(lines):
            if l.startswith("tryset"):
                nref += 1
                if nref % 40:
                    continue
            keep.append(j)
        lines, exp, labs = [lines[j] for j in keep], [exp[j] for j in keep], [labs[j] for j in keep]
    got = h.cmds(lines)
    chk.n += len(lines)
    chk.traces += 1
    for l, e, g, lab in zip(lines, exp, got, labs):
        if l != "get":
            chk.nontrivial.add((name, l))
        if g != e:
            chk.violation("settings differ from the specification", interface=name, command=l, expected=e, got=str(g),
                          edge=str(lab), values=str(pool))
            return
    chk.sample(dict(interface=name, values=str(pool), walk=[(l, g) for l, g in list(zip(lines, got))[:6]]))
