"""C23: the history of spec/Scale.tla on graphs of any size.  Histories for small sizes come from TLC and must be what expand() gives."""
from vlib import *
import resource
import c_deep
from c_deep import Replay, Mismatch
from ctypes_ import size, offsets

INT = dict(k="b", n="int")
CH = dict(k="b", n="char")
R_ = lambda n: dict(k="r", n=n)
P_ = lambda t: dict(k="p", of=t)
A_ = lambda c, t: dict(k="a", c=c, of=t)
M_ = lambda n, t: dict(n=n, of=t)
num = lambda x: dict(v="num", x=x, o=0)
nil = dict(v="nil", x=0, o=0)
ptr = lambda b, o=0: dict(v="ptr", x=b, o=o)
V = lambda i: num((i * 7 + 3) % 4)
NOMODE = dict(mb="", up="", un="", fx="")
md = lambda mb: dict(mb=mb, up="fail", un="fail", fx="fail")


def env(n):
    s = lambda nm, m: dict(k="s", n=nm, pk=0, m=m)
    return dict(C=s("C", [M_("v", INT), M_("next", P_(R_("C")))]), Tr=s("Tr", [M_("v", INT), M_("l", P_(R_("Tr"))), M_("r", P_(R_("Tr")))]),
                Wd=s("Wd", [M_("w%d" % i, P_(INT) if i % 3 == 0 else INT) for i in range(1, n + 1)]), Pr=s("Pr", [M_("k", INT), M_("p", P_(INT))]))


class Layouts:
    def __init__(self, e):
        self.e, self.m = e, {}

    def __call__(self, t):
        k = json.dumps(t, sort_keys=True)
        if k not in self.m:
            x = c_deep.expand(self.e, t)
            f = []
            if t["k"] == "a":
                s = self(t["of"])
                f = [dict(o=i * s["z"] + l["o"], t=l["t"]) for i in range(t["c"]) for l in s["f"]]
                z = s["z"] * t["c"]
            elif x["k"] == "s":
                f = [dict(o=o + l["o"], t=l["t"]) for m, o in zip(self.e[t["n"]]["m"], offsets(x)[0]) for l in self(m["of"])["f"]]
                z = size(x)
            else:
                f, z = [dict(o=0, t=t)], size(x)
            self.m[k] = dict(f=f, z=z, ix={l["o"]: i for i, l in enumerate(f)})
        return self.m[k]


def build(f, n):
    e = env(n)
    L = Layouts(e)
    cell = lambda t, c, top=False: dict(t=t, z=L(t)["z"], leaf=L(t)["f"], c=c, live=True, top=top)
    C, Tr = R_("C"), R_("Tr")
    if f in ("chain", "ring"):
        h = [cell(C, [V(i), ptr(i + 1) if i <= n else (ptr(2) if f == "ring" else nil)], i == 1) for i in range(1, n + 2)]
    elif f == "comb":
        h = [cell(Tr, [V(i)] + ([ptr(i + 1), ptr(n + 1 + i)] if i <= n else [nil, nil]), i == 1) for i in range(1, 2 * n + 2)]
    elif f == "bin":
        kid = lambda j: ptr(j) if j <= n else nil
        h = [cell(Tr, [V(i), kid(2 * i), kid(2 * i + 1)], i == 1) for i in range(1, n + 1)]
    elif f == "wide": h = [cell(A_(n, P_(C)), [ptr(j + 1) for j in range(1, n + 1)], True)] + [cell(C, [V(i), nil]) for i in range(2, n + 2)]
    elif f == "share": h = [cell(A_(n, P_(C)), [ptr(2)] * n, True), cell(C, [V(2), nil])]
    elif f == "ints": h = [cell(A_(n, INT), [V(j) for j in range(1, n + 1)], True)]
    elif f == "chars": h = [cell(A_(n, CH), [num(0 if j == n else 3) for j in range(1, n + 1)], True)]
    elif f == "members": h = [cell(R_("Wd"), [ptr(j // 3 + 1) if j % 3 == 0 else V(j) for j in range(1, n + 1)], True)] + [cell(INT, [V(i)]) for i in range(2, n // 3 + 2)]
    elif f == "pairs": h = [cell(A_(n, R_("Pr")), [ptr(j // 2 + 1) if j % 2 == 0 else V(j) for j in range(1, 2 * n + 1)], True)] + [cell(INT, [V(i)]) for i in range(2, n + 2)]
    elif f == "ptrs": h = [cell(P_(A_(n, INT)), [ptr(2)], True), cell(A_(n, INT), [V(j) for j in range(1, n + 1)])]
    return e, L, h


def reach(h, b):
    seen, todo = {b}, [b]
    while todo:
        q = h[todo.pop() - 1]
        for l, c in zip(q["leaf"], q["c"]):
            if l["t"]["k"] == "p" and c["v"] == "ptr" and c["x"] not in seen:
                seen.add(c["x"])
                todo.append(c["x"])
    return sorted(seen - {b})


def copied(q, c, top): return dict(t=q["t"], z=q["z"], leaf=q["leaf"], c=c, live=True, top=top)


def dag(h, b):
    al = [b] + reach(h, b)
    new = {x: len(h) + 1 + i for i, x in enumerate(al)}
    return [copied(h[x - 1], [ptr(new[c["x"]], c["o"]) if c["v"] == "ptr" else dict(c) for c in h[x - 1]["c"]], i == 0) for i, x in enumerate(al)]


def tree(h, b):
    """one new block per pointer met, in preorder; a pointer to an enclosing block leads to that block's copy"""
    out = []
    stack = [["in", b, None]]
    path = {}                  # block -> new id, while enclosing
    while stack:
        op, x, at = stack.pop()
        if op == "out":
            del path[x]
            continue
        if at is not None and x in path:
            out[at[0]]["c"][at[1]] = ptr(path[x])
            continue
        i = len(out)
        out.append(copied(h[x - 1], [dict(c) for c in h[x - 1]["c"]], i == 0))
        if at is not None:
            out[at[0]]["c"][at[1]] = ptr(len(h) + 1 + i)
            path[x] = len(h) + 1 + i
            stack.append(["out", x, None])
        for j in range(len(h[x - 1]["c"]) - 1, -1, -1):
            c = h[x - 1]["c"][j]
            if c["v"] == "ptr": stack.append(["in", c["x"], (i, j)])
    return out


def text(L, h, b, deep):
    out = []
    anc = set()
    stack = [("show", b, 0, h[b - 1]["t"])]
    at = lambda b, o: h[b - 1]["c"][L(h[b - 1]["t"])["ix"][o]]
    while stack:
        w = stack.pop()
        if w[0] == "tok":
            out.extend(w[1])
            continue
        if w[0] == "leave":
            anc.discard(w[1])
            continue
        _, b, o, t = w
        if t["k"] == "r":
            x = c_deep.expand(L.e, t)
            stack.append(("tok", ["}"]))
            for m, mo in reversed(list(zip(L.e[t["n"]]["m"], offsets(x)[0]))):
                stack += [("tok", [","]), ("show", b, o + mo, m["of"]), ("tok", [".", m["n"], "="])]
            out.append("{")
        elif t["k"] == "b":
            out.append("#%s:%d" % (t["n"], at(b, o)["x"]))
        elif t["k"] == "a":
            z = L(t["of"])["z"]
            xs = [at(b, o + i)["x"] for i in range(t["c"])] if t["of"] == CH else []
            if len(xs) >= 2 and xs[-1] == 0 and all(x in (1, 3, 4) for x in xs[:-1]):
                out.append("$" + "".join(map(str, xs[:-1])))
                continue
            out.append("{")
            stack.append(("tok", ["}"]))
            for i in range(t["c"] - 1, -1, -1): stack += [("tok", [","]), ("show", b, o + i * z, t["of"])]
        elif t["k"] == "p":
            c = at(b, o)
            if c["v"] == "nil": out.append("NULL")
            elif not deep: out.append("@%d:%d" % (c["x"], c["o"]))
            elif c["x"] in anc: return ["!"]
            else:
                anc.add(c["x"])
                f = t["of"]
                name = ["struct", f["n"], "[", "]"] if f["k"] == "r" else [f["n"], "[", "]"] if f["k"] == "b" else [f["of"]["n"], "[", "]", "[", str(f["c"]), "]"]
                out += ["("] + name + [")", "{"]
                stack += [("leave", c["x"]), ("tok", [",", "}"]), ("show", c["x"], c["o"], f)]
    return out


def equal(h, a, b):
    """isomorphism of the two graphs, walked as trees"""
    todo, seen = [(a, b, ())], set()
    while todo:
        x, y, _ = todo.pop()
        if (x, y) in seen: continue
        seen.add((x, y))
        for l, c, d in zip(h[x - 1]["leaf"], h[x - 1]["c"], h[y - 1]["c"]):
            if c["v"] != d["v"] or (c["v"] == "num" and c["x"] != d["x"]): return False
            if c["v"] == "ptr": todo.append((c["x"], d["x"], ()))
    return True


def expand(f, n, upto=99):
    e, L, h = build(f, n)
    step = lambda op, a, b, m, res, cells: dict(op=op, a=a, b=b, m=m, res=res, cells=cells)
    hist = [dict(env=e, heap=[dict(c) for c in h])]

    def show(b, d):
        t = text(L, h, b, d)
        hist.append(step("show", b, d, NOMODE, "none" if t == ["!"] else "text", t))

    def eq(a, b, m): hist.append(step("eq", a, b, md(m), "1" if equal(h, a, b) else "0", []))

    def free(b):
        fs = reach(h, b)
        hist.append(step("free", b, 0, md("dag"), "ok", fs))
    show(1, 0)
    if n < 60000 or f == "chars": show(1, 1)
    if upto <= 3: return hist
    c1 = len(h) + 1
    cells = dag(h, 1)
    h += cells
    hist.append(step("copy", 1, c1, md("dag"), "ok", [dict(c, c=list(c["c"])) for c in cells]))
    c2 = len(h) + 1
    cells = tree(h, 1)
    h += cells
    hist.append(step("copy", 1, c2, md("tree"), "ok", [dict(c, c=list(c["c"])) for c in cells]))
    eq(1, c1, "dag")
    eq(c1, c2, "tree")
    b = len(h)
    js = [j for j, l in enumerate(h[b - 1]["leaf"]) if l["t"]["k"] != "p"]
    if js:
        c = num((h[b - 1]["c"][js[-1]]["x"] + 1) % 4)
        h[b - 1]["c"][js[-1]] = c
        hist.append(step("poke", b, js[-1] + 1, NOMODE, "", [dict(c=c)]))
    else: eq(1, c2, "tree")
    eq(1, c2, "tree")
    show(c2, 1)
    free(c2)
    show(c1, 1)
    free(c1)
    return hist


NEST = ("chain", "ring", "comb")
FAMS = ["chain", "ring", "comb", "bin", "wide", "share", "ints", "chars", "members", "pairs", "ptrs"]


def c23(ctx):
    small = ctx.tlc("Scale", dict(NEnv=0, MaxBlocks=0, SimDepth=0, Mix="<<>>", Families="{%s}" % ", ".join('"%s"' % f for f in FAMS), MaxN=6), spec="SSpec",
                    invariants=["CopyEqual", "CopyEqualTree", "CopyDisjoint", "Symmetric", "Reflexive", "FreeAll", "Sees", "Emit"], workers=1, timeout=800, heap="4g")["lines"]
    if len(small) != len(FAMS) * 6: raise CheckError("%d small histories" % len(small))
    for o in small:
        if json.dumps(o["h"], sort_keys=True) != json.dumps(expand(o["f"], o["n"]), sort_keys=True):
            a, b = o["h"], expand(o["f"], o["n"])
            k = next(i for i in range(len(a)) if json.dumps(a[i], sort_keys=True) != json.dumps(b[i], sort_keys=True))
            raise CheckError("expansion of %s %d differs from TLC at step %d:\n%s\n%s" % (o["f"], o["n"], k, json.dumps(a[k])[:1500], json.dumps(b[k])[:1500]))
    ctx.part("expansion agrees with TLC", histories=len(small))
    exe = ctx.driver_plain("deep", ["deep_drv.c", "tdl.c", "alloc.c"])
    fast = ctx.driver_fast("deep", ["deep_drv.c", "tdl.c", "alloc.c"])
    wide = 3000 if ctx.quick else 12000
    nest = 600 if ctx.quick else 2000           # the cost of a walk grows with the cube of the depth
    long = 9000 if ctx.quick else 66000          # with the square of the breadth
    big = {"chain": nest, "ring": nest, "comb": nest * 2 // 3, "bin": 4095 if ctx.quick else 16383, "wide": wide, "share": wide, "ints": long, "chars": long, "members": 2500, "pairs": wide, "ptrs": long}
    rng = random.Random(ctx.seed)
    jobs = [(f, n) for f in FAMS for n in sorted({7, 33, rng.randint(60, 200), rng.randint(257, 320), 600 if f in NEST and not ctx.quick else 350 if f != "comb" else 300, big[f]})] + ([("chars", 70000), ("ints", 66000), ("chain", 1100), ("wide", 9000)] if ctx.quick else [])
    jobs.sort(key=lambda j: (-j[1] * (4 if j[0] in NEST else 1) if j[1] > 400 else 0))

    def one(j):
        f, n = j
        t0 = time.time()
        large = n > 400
        drv = Driver("/bin/sh", ["-c", "ulimit -s %d; exec \"$0\"" % (64 if large else 256), fast if large else exe], timeout=800)
        rp = None
        try:
            h = expand(f, n, 3 if ctx.quick and n > (700 if f == "chain" else 60000) else 99)
            if f != "members": h[0]["env"] = env(3)        # an unused type
            rp = Replay(drv, h[0], random.Random(n))
            deep = large and f in NEST
            for k, s in enumerate(h[1:]):
                if deep and ctx.quick and (s["op"] == "eq" or (s["op"] == "show" and k > 2)): continue
                rp.step(s)
            drv.cmd("Z")
            bad = None
        except Mismatch as e: bad = str(e)[:600]
        except Died as e: bad = "implementation failed: %s; command '%s'" % (str(e)[:600], rp.log[-1][:100] if rp and rp.log else "")
        drv.close()
        return j, bad, time.time() - t0
    for (f, n), bad, t in pmap(one, jobs, 8):
        ctx.cov["traces_validated_against_impl"] += 1
        ctx.log("%s %d: %.1f s" % (f, n, t))
        if bad: ctx.violate("%s of size %d: %s" % (f, n, bad), family=f, size=n, key="%s %d" % (f, n))
    ctx.part("sizes", **{f: max(n for g, n in jobs if g == f) for f in FAMS})
    ctx.sample(dict(family="chain", n=3, history=[(s["op"], s["res"]) for s in expand("chain", 3)[1:]]))
    ctx.assumptions += ["stack limited to 64 KB (256 KB with the address sanitizer)", "what the operations do on the families of graphs is uniform in their size: the large histories are expanded by a program that agrees with TLC on sizes 1 to 6"]
