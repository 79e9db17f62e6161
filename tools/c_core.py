"""C01 (hash map) and C02 (recursive iterator): state-graph conformance."""
from vlib import *

OPFMT = {"put": "put {k} {v} {fault} {inst}", "memo": "memo {k} {v} {fault} {inst}", "get": "get {k} 0 0 {inst}",
         "has": "has {k} 0 0 {inst}", "rm": "rm {k} 0 0 {inst}", "size": "size", "each": "each", "stop": "stop {k}",
         "reset": "reset", "newfail": "newfail {k}"}
hlabel = lambda a: OPFMT[a["op"]].format(**a)
hout = lambda a: " ".join(map(str, a["res"]))


def replay_linear(ctx, exe, args, hists, label, output, prefix):
    """Replays whole specification behaviours (one outcome per step, alternatives end the replay)."""
    def one(h):
        ls = [label(a) for a in h]
        for a, l, r in zip(h, ls, batch(exe, ls, 60, args)):
            if r.startswith("!"):
                return ("%s: implementation failed on '%s': %s" % (prefix, l, r), ls)
            if r != output(a):
                if a.get("fault") or a["op"] == "newfail":
                    return None      # the other allowed outcome of an injected fault
                return ("%s: '%s' answered '%s', specification says '%s'" % (prefix, l, r, output(a)), ls)
        return None
    with concurrent.futures.ThreadPoolExecutor(J) as ex:
        for r in ex.map(one, hists):
            ctx.cov["traces_validated_against_impl"] += 1
            if r:
                ctx.violate(r[0], history=r[1], key=prefix)


def c01(ctx):
    exe = ctx.driver_plain("hashmap", ["hashmap_drv.c", "alloc.c"])
    cfgs = [("const", 1, 3, "{0, 1}"), ("mod2", 1, 4, "{1}"), ("id", 2, 4, "{1}")]
    if not ctx.quick:
        cfgs += [("const", 1, 5, "{0, 1}"), ("mod2", 4, 4, "{0, 1, 2}"), ("id", 1, 5, "{0, 1}"), ("mod2", 1, 5, "{0, 1}")]
    for mode, ib, nk, vals in cfgs:
        r = ctx.tlc("Hashmap", dict(Keys="0..%d" % (nk - 1), Vals=vals, HashMode='"%s"' % mode, InitBuckets=ib,
                    MaxBuckets=16, Faults="{0, 1, 2}"), spec="Spec", invariants=["Refines", "NoDup", "WellPlaced"],
                    properties=["FailureAtomic"], view="View", action_constraint="EmitOn")
        g = Graph(r["lines"], hlabel, hout)
        init = json.dumps([[[]] * ib, {str(k): 0 for k in range(nk)}], sort_keys=True)
        if init not in g.g:
            raise CheckError("initial state not in graph")
        rest = walk(ctx, g, init, lambda: Driver(exe, [mode, str({1: 0, 2: 1, 4: 2}[ib])]),
                    60000 if ctx.quick else 600000, keyprefix="hashmap[%s,%d]" % (mode, ib))
        ctx.log("graph", mode, ib, nk, "edges", g.edges, "uncovered", rest)
    # deep random behaviours: many keys, several growths, extreme hash values
    for mode in (["mod2"] if ctx.quick else ["mod2", "const", "id"]):
        r = ctx.tlc("HashmapSim", dict(Keys="0..13", Vals="{0, 1, 2}", HashMode='"%s"' % mode, InitBuckets=1, MaxBuckets=64,
                    Faults="{0, 1, 2}", SimDepth=80), init="SimInit", nxt="SimNext", invariants=["Refines", "NoDup", "SimEmit"],
                    simulate=400 if ctx.quick else 6000, depth=82)
        ctx.part("simulation", behaviours=len(r["lines"]), steps=sum(map(len, r["lines"])))
        for m in (mode, "const", "neg", "id", "int", "bytes"):
            replay_linear(ctx, exe, [m, "0"], r["lines"], hlabel, hout, "hashmap-sim[%s]" % m)
    # large maps, only the finite map
    n, st, num = (700, 3000, 3) if ctx.quick else (1000, 6000, 8)
    def big(j):
        i, (mode, cap) = j
        r = ctx.tlc("BigMap", dict(N=n if mode != "const" else 150, Steps=st), init="Init", nxt="Next", invariants=["Emit"], simulate=num, depth=st + 1, seed=ctx.seed * 100 + i, timeout=800)
        replay_linear(ctx, exe, [mode, str(cap)], r["lines"], hlabel, hout, "hashmap-big[%s,%d]" % (mode, cap))
        return len(r["lines"])
    jobs = list(enumerate([("rnd", 0), ("int", 1), ("bytes", 3), ("neg", 6), ("high", 12), ("id", 64), ("const", 100), ("rnd", 500)]))
    ctx.part("large maps", behaviours=sum(pmap(big, jobs, J)), steps=st)
    ctx.assumptions += ["keys are compared by the caller's equality; for-each visiting order is not part of the property"]


RIFMT = {"append": "append {x} {y}", "peek": "peek {x}", "state": "state {x}", "ctx": "ctx {x}", "done": "done {x}",
         "restart": "restart {x} {y}"}
rlabel = lambda a: RIFMT.get(a["op"], a["op"]).format(**a)


def c02(ctx):
    exe = ctx.driver_plain("iter", ["iter_drv.c", "alloc.c"])
    cfgs = [("deep", dict(Ins="{1, 2}", Outs="{0, 5}", UserStates="{0, 1}", Ctxs="{0}", MaxDeps=2, MaxDepth=3, MaxTasks=3)),
            ("ctx", dict(Ins="{1}", Outs="{5}", UserStates="{0, 1}", Ctxs="{0, 7}", MaxDeps=2, MaxDepth=3, MaxTasks=2)),
            ("wide", dict(Ins="{1, 2, 3}", Outs="{5}", UserStates="{0}", Ctxs="{0}", MaxDeps=3, MaxDepth=2, MaxTasks=4))]
    if not ctx.quick:
        cfgs += [("deep4", dict(Ins="{1, 2}", Outs="{5}", UserStates="{0}", Ctxs="{0}", MaxDeps=2, MaxDepth=4, MaxTasks=5)),
                 ("ctx2", dict(Ins="{1}", Outs="{5}", UserStates="{0, 1}", Ctxs="{0, 7}", MaxDeps=2, MaxDepth=3, MaxTasks=3))]
    for name, c in cfgs:
        r = ctx.tlc("RIter", dict(c, Faults="{0, 1}"), spec="Spec", view="View", action_constraint="EmitOn",
                    invariants=["OnlyReadyRuns", "InOrder", "PathOK", "EndsWithRoot"], properties=["SuspendedKept"])
        g = Graph(r["lines"], rlabel, hout)
        init = json.dumps([[dict(st=0, ctx=0, deps=[], end="no", out=0, **{"in": 1})], c["MaxTasks"]], sort_keys=True)
        if init not in g.g:
            raise CheckError("initial state not in graph")
        rest = walk(ctx, g, init, lambda: Driver(exe), 60000 if ctx.quick else 900000, keyprefix="iterator[%s]" % name)
        ctx.log("graph", name, "states", len(g.g), "edges", g.edges, "uncovered", rest)
    r = ctx.tlc("RIterSim", dict(Ins="1..6", Outs="{0, 5, 6}", UserStates="0..3", Ctxs="{0, 7, 8}", MaxDeps=6, MaxDepth=7,
                MaxTasks=200, Faults="{0, 1}", SimDepth=250), init="SimInit", nxt="SimNext",
                invariants=["OnlyReadyRuns", "InOrder", "PathOK", "EndsWithRoot", "SimEmit"], simulate=60 if ctx.quick else 3000, depth=252)
    ctx.part("simulation", behaviours=len(r["lines"]), steps=sum(map(len, r["lines"])))
    replay_linear(ctx, exe, [], r["lines"], rlabel, hout, "iterator-sim")
    # many unfinished tasks above each other and many dependencies of one task
    for nm, dep, deps in (("deep", 120, 8), ("wide", 30, 90)):
        r = ctx.tlc("RIterSim", dict(Ins="1..60", Outs="{0, 5, 6, 7, 8}", UserStates="0..9", Ctxs="{0, 7, 8}", MaxDeps=deps, MaxDepth=dep,
                    MaxTasks=2000, Faults="{0, 1}", SimDepth=1200), init="SimInit", nxt="BigNext",
                    invariants=["OnlyReadyRuns", "EndsWithRoot", "SimEmit"], simulate=6 if ctx.quick else 100, depth=1202)
        ctx.part("simulation, " + nm, behaviours=len(r["lines"]), steps=sum(map(len, r["lines"])), deepest=max(len(x["res"]) - 8 for h in r["lines"] for x in h))
        replay_linear(ctx, exe, [], r["lines"], rlabel, hout, "iterator-" + nm)
