"""C12: every allocation of every operation denied once, and all from there on."""
from vlib import *
from ctypes_ import tdl, size
import c_deep, c_handlers, c_args, c_calls, c_core, c_tags, c_entries
from c_scalar import BT, patterns, cell, cell_tokens, INTS, WRAPS
from c_types import C07_BASES


def allowed(ctx):
    """(denied?, outcome, blocks kept beyond the result) the specification allows"""
    r = ctx.tlc("Faults", dict(Requests=3), spec="Spec", invariants=["NothingKept", "RefusedEmpty", "OnlyIfDenied", "Emit"], properties=["Ends"], workers=2)
    return {(o["hit"], o["out"], o["kept"]) for o in r["lines"]}


def judge(ctx, ok, what, cmds, res):
    pts = 0
    for c, got in zip(cmds, res):
        if got.startswith("?"):
            continue
        ctx.cov["traces_validated_against_impl"] += 1
        w = got.rpartition("\x01")[2].split()
        bad = "failed: " + got[:200] if got.startswith("!") or len(w) % 5 else None
        for i in range(0, len(w) - 4, 5):
            k, frm, out, kept, rel = w[i:i + 5]
            pts += k != "0"
            if rel != "0" or (k != "0", out, int(kept)) not in ok:
                bad = "allocation %s%s denied: %s, %s blocks kept, %s bad releases" % (k, " and later ones" if frm == "1" else "", out, kept, rel)
                break
        if bad:
            ctx.violate("%s '%s': %s" % (what, c[2:300], bad), command=c, got=got, key=c)
    ctx.part(what, operations=len(cmds), failed_allocations=pts)
    if cmds:
        ctx.sample(dict(operation=cmds[len(cmds) // 2], answer=res[len(cmds) // 2].replace("\x01", " | ")[:400]))


class Quiet:
    """a context that collects violations"""
    def __init__(self, ctx):
        self.__dict__.update(c=ctx, got=[])

    def __getattr__(self, n):
        return getattr(self.c, n)

    def violate(self, what, **r):
        self.got.append((what, r))
        raise StopCheck()

    def part(self, *a, **k): pass
    def sample(self, *a, **k): pass


def containers(ctx):
    """hash map, iterator and annotation maps: histories with failing allocations.  Only what goes wrong with failures, but
    not in histories without them, counts here."""
    hm = ctx.driver_plain("hashmap", ["hashmap_drv.c", "alloc.c"])
    it = ctx.driver_plain("iter", ["iter_drv.c", "alloc.c"])
    tm = ctx.driver_plain("tagmap", ["tagmap_drv.c", "tdl.c", "alloc.c"])
    jobs = [("hash map %s" % m, "hm", m, ib, nk) for m, ib, nk in (("const", 1, 3), ("mod2", 1, 4))]
    jobs += [("iterator", "it", None, None, None)] + [("annotation map " + n, "tm", n, maps, None) for n, maps in c_tags.TCFG if not ctx.quick or n in ("plain", "default", "layers", "extdef")]

    def one(j):
        what, k, a, b, c = j
        if k == "hm":
            r = ctx.tlc("Hashmap", dict(Keys="0..%d" % (c - 1), Vals="{0, 1}", HashMode='"%s"' % a, InitBuckets=b, MaxBuckets=16, Faults="{0, 1, 2, 3}"), spec="Spec",
                        invariants=["Refines", "NoDup"], properties=["FailureAtomic"], view="View", action_constraint="EmitOn", workers=2, heap="3g")
            lab, out, drv = c_core.hlabel, c_core.hout, lambda: Driver(hm, [a, "0"])
            init = json.dumps([[[]] * b, {str(i): 0 for i in range(c)}], sort_keys=True)
            clean = lambda x: not x.get("fault") and x["op"] != "newfail"
        elif k == "it":
            r = ctx.tlc("RIter", dict(Ins="{1, 2}", Outs="{5}", UserStates="{0}", Ctxs="{0}", MaxDeps=2, MaxDepth=3, MaxTasks=3, Faults="{0, 1}"), spec="Spec", view="View",
                        action_constraint="EmitOn", invariants=["OnlyReadyRuns", "InOrder"], properties=["SuspendedKept"], workers=2, heap="3g")
            lab, out, drv = c_core.rlabel, c_core.hout, lambda: Driver(it)
            init = json.dumps([[dict(st=0, ctx=0, deps=[], end="no", out=0, **{"in": 1})], 3], sort_keys=True)
            clean = lambda x: x["op"] not in ("append", "restart") or x["y"] == 0
        else:
            tl, cmds = c_tags.cfgs(b)
            r = ctx.tlc("TagMap", dict(Cfgs=tl, Objs="{1, 3, 6}", Tags="1..3" if a == "plain" else "1..2", Owned="{1, 2}", MaxRegs=2, Faults="{0, 1, 2, 3, 4}"), spec="Spec",
                        invariants=["Sourced"], properties=["Unchanged", "Conserved"], view="View", action_constraint="EmitOn", workers=2, heap="3g")
            lab, out, drv = c_tags.tlabel, c_tags.tout, lambda: c_tags.TagDriver(tm, cmds)
            init = json.dumps({"l": [], "r": []}, sort_keys=True)
            clean = lambda x: not x.get("fault")
        steps = 25000 if ctx.quick else 300000
        q = Quiet(ctx)
        full = Graph(r["lines"], lab, out)
        if init not in full.g:
            raise CheckError("initial state not in graph")
        try:
            walk(q, full, init, drv, steps, keyprefix=what)
        except StopCheck:
            p = Quiet(ctx)
            try:
                walk(p, Graph([x for x in r["lines"] if clean(x["a"])], lab, out), init, drv, steps, keyprefix=what)
            except StopCheck:
                pass
            if not p.got:
                return what, full.edges, q.got[0]
        return what, full.edges, None
    for what, edges, v in pmap(one, jobs, 4):
        ctx.part("containers", **{what.replace(" ", "_") + "_edges": edges})
        if v:
            ctx.violate(v[0], **v[1])


def texts(ctx, ok):
    """texts of scalar values, annotation lookups and annotation data"""
    rng = ctx.rng
    val = ctx.driver_plain("val", ["val_drv.c", "tdl.c", "alloc.c"])
    cmds = ["kstr " + cell_tokens(cell(t, m, wrap=w)) for t in BT for m in patterns(t, rng, 1)[:4] for w in ("plain", "td2", "var")]
    cmds += ["kval " + c[5:] for c in cmds[::2]]
    en = "e E %d 2 e1 0 e2 7 . %s"
    cmds += [k + " " + en % (z, (v % 256 ** z).to_bytes(z, "little").hex()) for z in (1, 2, 4, 8) for v in (0, 7, 5, -1) for k in ("kes", "kval")]
    cmds += [k + " p b char 7 1 . " + v for v in ("0" * 16, "f0debc9a78563412") for k in ("kps", "kval")]
    judge(ctx, ok, "scalar text", cmds, pbatch(val, cmds))
    ts = ctx.driver_plain("tagstr", ["tagstr_drv.c", "tdl.c", "alloc.c"])
    cmds = ["K %s %s" % (c_tags.hx(s), c_tags.hx(k)) for s in ('a:"b"', 'a:"" b:"x\\"y"', ' ab:"1" a:"' + "z" * 70 + '"', "none", 'a:"open', "") for k in ("a", "b", "ab", "zz")]
    judge(ctx, ok, "annotation lookup", cmds, pbatch(ts, cmds))
    dp = ctx.driver_plain("deep", ["deep_drv.c", "tdl.c", "alloc.c"])
    i4 = "b int 6 4"
    cmds = ["H count cnt", "H zs", "H perm 0", "H perm 3", "H cont 8 p " + i4] + \
           ["H sel sib %d %s" % (n, " ".join("%d %d %s" % (i, i % 2, nm) for i in range(n))) for n in (0, 1, 3, 9) for nm in ("-", "ua")] + \
           ["H cast %s sib %d %s" % (c, n, " ".join("%d p %s" % (i, i4) for i in range(n))) for n in (0, 1, 3, 9) for c in ("-", "cnt")]
    judge(ctx, ok, "annotation data", cmds, batch(dp, cmds))


def c12(ctx):
    ok = allowed(ctx)
    containers(ctx)
    texts(ctx, ok)
    nav = ctx.driver_plain("nav", ["nav_drv.c", "tdl.c", "alloc.c"])
    cd = ctx.driver_plain("cdecl", ["cdecl_drv.c", "tdl.c", "alloc.c"])
    ent = ctx.driver_plain("entry", ["entry_drv.c", "tdl.c", "alloc.c"])
    n = (60, 200) if ctx.quick else (600, 3000)

    def part(k):
        if k == 4:
            r = ctx.tlc("Entries", dict(Roots="{RRoot(i) : i \\in 1..%d}" % (n[0] // 2), MaxPath=2), spec="Spec", invariants=["EmitInv"], workers=1, seed=ctx.seed * 100 + k, timeout=800, heap="2g")
            return "descriptions", ["K %s | %s |" % (c_entries.tdl(o["root"]), " ".join(map(c_entries.mv, o["path"]))) for o in r["lines"] if all(m["o"] not in "cy" for m in o["path"])], ent
        if k < 2:
            r = ctx.tlc("Navigate", dict(Roots="{GenObj(%d) : i \\in 1..%d}" % (2 + k, n[0]), MaxPath=3), spec="Spec", invariants=["Inside", "EmitInv"], workers=1, seed=ctx.seed * 100 + k, timeout=800, heap="2g")
            st = lambda s: {"m": "m%(i)d", "n": "n%(n)s", "e": "e%(i)d", "c": "c%(i)d", "p": "p%(i)d", "C": "C%(i)d:%(n)s"}[s["o"]] % s
            cmds = ["K %s %d %s" % (("x var1 " if o["dk"] == "x" else "") + tdl(o["root"]), size(o["root"]), " ".join(map(st, o["path"]))) for o in r["lines"] if len(o["path"]) >= 1]
            return "navigation", cmds, nav
        r = ctx.tlc("Cdecl", dict(Bases=C07_BASES, MaxWrap=0, Texts="<<>>", Start="{GenD(R(3..8)) : i \\in 1..%d}" % n[1]), init="RInit", invariants=["EmitInv"], workers=1, timeout=850, seed=ctx.seed * 100 + k, heap="3g")
        cmds = []
        for o in r["lines"]:
            t = o["t"]
            if o["dk"] == "t" and t["k"] == "v":
                continue
            cmds.append("K " + ("x nm " + tdl(t) if o["dk"] == "x" else tdl(dict(t, k="g", n="fn")) if o["dk"] == "g" else tdl(t)))
        return "declaration text", cmds, cd
    for what, cmds, exe in pmap(part, range(5), 5):
        judge(ctx, ok, what, cmds, pbatch(exe, cmds, n=8))
    c_args.c12_printf(ctx, ok)
    c_deep.SPARSE[0] = ctx.quick
    c_deep.c12_deep(ctx)
    c_handlers.c12_handlers(ctx)
    c_calls.c12_calls(ctx)
