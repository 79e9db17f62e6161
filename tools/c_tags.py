"""C13 (annotation maps) and C14 (annotation strings)."""
from vlib import *


def hx(s):
    return s.encode("utf-8", "surrogateescape").hex() if s else "-"


KEYS = ["a", "b", "ab", "", "a:", '"', "\\", "aa"]
tlas = lambda w: "<<" + ", ".join('"%s"' % c.replace("\\", "\\\\").replace('"', '\\"') for c in w) + ">>"


# what the specification's letters a and b stand for: any texts without special characters will do, as long as different
# sequences of them stay different
LETTERS = [("\t", "\n"), ("\x7f", "\x01"), ("\udcff", "\udc80"), ("k" * 150 + "x", "k" * 150 + "y"), ("x" + "k" * 300, "y" + "k" * 300), ("A", "a"), ("'", ";"), ("\v", "\r"), ("=", ","), ("0", "1"), ("k", "K"), ("{", "}")]


def c14(ctx):
    exe = ctx.driver_plain("tagstr", ["tagstr_drv.c", "tdl.c", "alloc.c"])
    keys = "<<" + ", ".join(tlas(k) for k in KEYS) + ">>"
    al = '{"a", "b", ":", "\\"", "\\\\", " "}'
    runs = [dict(consts=dict(Alphabet=al, MaxLen=6 if ctx.quick else 7, Keys=keys), invariants=["WellFormed", "Emit"]),
            dict(consts=dict(Alphabet='{"a", ":", "\\"", " "}', MaxLen=8 if ctx.quick else 9, Keys=keys), invariants=["WellFormed", "Emit"]),
            dict(consts=dict(Alphabet=al, MaxLen=99, Keys=keys), init="SimInit", nxt="SimNext", invariants=["WellFormed", "Emit"],
                 simulate=1200 if ctx.quick else 20000, depth=9)]
    for name, r in zip(("all", "long", "random"), pmap(lambda k: ctx.tlc("TagString", workers=2, **k), runs, 3)):
        cases, exp = [], []
        for l in r["lines"]:
            s = "".join(l["s"])
            for k, a in zip(KEYS, l["a"]):
                if name != "all" and k not in ("a", "b", "ab") and len(cases) % 5:
                    continue
                cases.append((s, k))
                exp.append("=" + hx("".join(a["v"])) if a["ok"] else "none")
        # the same with other letters
        plain = len(cases)
        step = 1 if name == "random" else 7
        for n, l in enumerate(r["lines"][::step]):
            a, b = LETTERS[n % len(LETTERS)]
            sub = lambda t: "".join(a if c == "a" else b if c == "b" else c for c in t)
            for k, v in zip(KEYS, l["a"]):
                if k in ("a", "b", "ab", "aa"):
                    cases.append((sub(l["s"]), sub(k)))
                    exp.append("=" + hx(sub(v["v"])) if v["ok"] else "none")
        res = pbatch(exe, ["%s %s" % (hx(s), hx(k)) for s, k in cases])
        for (s, k), e, g in zip(cases, exp, res):
            if g != e and not g.startswith("?"):
                ctx.violate("looking up %r in annotation %r answered %s, the specification says %s" % (k[:60], s[:400], g[:200], e[:200]), string=s, lookup=k, key="lookup")
        ctx.cov["traces_validated_against_impl"] += len(r["lines"])
        ctx.part(name, strings=len(r["lines"]), lookups=len(cases), found=sum(1 for e in exp if e != "none"))
        for i in (plain // 2, plain - 3):
            ctx.sample(dict(string=cases[i][0], key=cases[i][1], answer=res[i]))
    for l in ("0 61", "6161 0", "0 0"):
        if batch(exe, [l])[0] != "none":
            ctx.violate("lookup without string or key is not refused", key="null", line=l)


MB = {"var": 1, "par": 2, "mem": 4, "fin": 8}


def cfgs(maps):
    """maps: list of (default, [(mask words, ext)])"""
    t = ", ".join("[def |-> %d, cats |-> <<%s>>]" % (d, ", ".join("[mask |-> {%s}, ext |-> %d]" % (", ".join('"%s"' % w for w in k.split()), e) for k, e in cs)) for d, cs in maps)
    cmds = ["cfg %d %d %d %s" % (i + 1, d, len(cs), " ".join("%d %d" % (sum(MB[w] for w in k.split()), e) for k, e in cs)) for i, (d, cs) in enumerate(maps)]
    return "<<" + t + ">>", cmds


ALL = "var par mem"
TCFG = [("plain", [(0, [(ALL, 0)])]),
        ("default", [(2, [(ALL, 0)]), (1, [("mem", 0)])]),
        ("final", [(0, [("var mem par fin", 0)])]),
        ("layers", [(0, [("var", 0), ("mem fin", 0), ("var par fin", 0)])]),
        ("ext", [(0, [("mem var fin", 0)]), (3, [("var", 0), ("var mem", 1)])]),
        ("extfirst", [(0, [(ALL, 0)]), (1, [("var mem par", 1), ("var fin", 0)])]),
        ("extdef", [(2, [("mem", 0)]), (0, [("var mem", 1), ("var", 0)])])]


def tlabel(a):
    if a["op"] == "new":
        return "new %d %d" % (a["m"], a["fault"])
    if a["op"] == "del":
        return "del %d" % a["m"]
    if a["op"] == "get":
        return "get %d %d" % (a["m"], a["o"])
    return "set %d %d %d %d %d %d %d" % (a["m"], a["c"], a["o"], a["x"][0], a["x"][1], a["t"], a["fault"])


def tout(a):
    r = a["rel"]
    v = [r[k] for k in sorted(r)] if isinstance(r, dict) else r
    return "%s %s" % (a["res"], " ".join(map(str, v + [0] * (5 - len(v)))))


class TagDriver(Driver):
    def __init__(self, exe, cmds):
        Driver.__init__(self, exe)
        for c in cmds:
            self.cmd(c)


def c13(ctx):
    exe = ctx.driver_plain("tagmap", ["tagmap_drv.c", "tdl.c", "alloc.c"])
    T = lambda n: "1..%d" % n
    def one(c):
        name, maps = c
        tl, cmds = cfgs(maps)
        objs = {"plain": "{1, 3, 5, 6, 9}", "final": "{1, 2, 8, 6, 10}", "layers": "{1, 3, 6, 5}"}.get(name, "{1, 3, 6}")
        r = ctx.tlc("TagMap", dict(Cfgs=tl, Objs=objs, Tags=T(2), Owned="{1, 2}", MaxRegs=2 if ctx.quick else 3, Faults="{0, 1, 2, 3}"),
                    spec="Spec", invariants=["Sourced", "FirstWins"], properties=["Unchanged", "Conserved"], view="View", action_constraint="EmitOn", workers=2)
        return name, cmds, Graph(r["lines"], tlabel, tout)
    init = json.dumps({"l": [], "r": []}, sort_keys=True)
    for name, cmds, g in pmap(one, TCFG, 4):
        if init not in g.g:
            raise CheckError("initial state not in graph")
        rest = walk(ctx, g, init, lambda: TagDriver(exe, cmds), 90000 if ctx.quick else 600000, keyprefix="tagmap[%s]" % name)
        ctx.log("graph", name, "states", len(g.g), "edges", g.edges, "uncovered", rest)
    # long histories over all entities, five tags, three stacked maps
    for i, maps in enumerate([[(0, [("mem var fin", 0), ("par", 0)]), (3, [("var", 0), (ALL, 1), ("par fin", 0)]), (5, [("var mem par", 2), ("var fin", 0)])],
                              [(1, [("mem", 0), ("var par fin", 0)]), (0, [(ALL, 0)]), (0, [("par var", 2), ("mem", 1), ("var mem fin", 0)])]]):
        tl, cmds = cfgs(maps)
        r = ctx.tlc("TagMapSim", dict(Cfgs=tl, Objs="1..10", Tags=T(5), Owned="{1, 2, 5}", MaxRegs=30, Faults="{0, 1, 2, 3, 4, 5, 6}", SimDepth=60),
                    init="SimInit", nxt="SimNext", invariants=["Sourced", "SimEmit"], simulate=200 if ctx.quick else 4000, depth=62)
        ctx.part("simulation", behaviours=len(r["lines"]), steps=sum(map(len, r["lines"])))

        def rep(h):
            drv = TagDriver(exe, cmds)
            log = []
            try:
                for a in h:
                    log.append(tlabel(a))
                    g = drv.cmd(log[-1])
                    if g != tout(a):
                        if a["fault"]:
                            return None           # the other outcome of an injected failure
                        return "'%s' answered '%s', the specification says '%s'" % (log[-1], g, tout(a)), cmds + log
            except Died as e:
                return "implementation failed: %s" % e, cmds + log
            finally:
                drv.close()
        for x in pmap(rep, r["lines"], J):
            ctx.cov["traces_validated_against_impl"] += 1
            if x:
                ctx.violate("annotation map history: %s; tail %s" % (x[0], x[1][-8:]), history=x[1], key="tagmap-sim")
