"""C06 (navigation) and C07 (declaration text) over types of spec/CTypes.tla."""
from vlib import *
from ctypes_ import tdl, size, nm
import ctypes_
from c_scalar import BT

KIND = {"t": 0, "b": 1, "p": 2, "e": 3, "f": 4, "a": 5, "m": 15, "s": 16, "u": 17, "x": 19, "g": 21}
QUAL = {"const": 6, "volatile": 7, "restrict": 8}
QBIT = {"const": 1, "volatile": 2, "restrict": 4}


SCALE = 300000000
PAD = dict(k="a", c=1000000000, of=dict(k="b", n="ulong"))


def huge(lines):
    """The same moves in objects of more than 4 GB (offsets grow by a known amount): an array with more elements, entered at its last one,
    and an object that is the last member of a large structure."""
    out = []
    for o in lines:
        if any(s["o"] in "pC" for s in o["path"]):
            continue
        t, p = o["root"], o["path"]
        if t["k"] == "a" and 2 <= t["c"] <= 7:
            sz, n = size(t["of"]), SCALE * t["c"]
            far = p and p[0]["o"] == "e" and p[0]["i"] == t["c"] - 1
            if far or not p:
                h = dict(o, huge=1, root=dict(t, c=n))
                if p:
                    h.update(path=[dict(p[0], i=n - 1)] + p[1:], off=o["off"] + (n - t["c"]) * sz)
                else:
                    h.update(size=n * sz, count=n, bad=[dict(b, i=n) if b["o"] == "e" and b["i"] == t["c"] else b for b in o["bad"]])
                out.append(h)
        if t["k"] == "a" and p and p[0]["o"] == "c" and p[0]["i"] == 3:
            sz, n = size(t["of"]), SCALE * 3
            if len(p) == 1:
                out.append(dict(o, huge=1, path=[dict(p[0], i=n)], count=n, size=n * sz, bad=[dict(b, i=n) if b["o"] == "e" and b["i"] == 3 else b for b in o["bad"]]))
            elif p[1]["o"] == "e" and p[1]["i"] == 2:
                out.append(dict(o, huge=1, path=[dict(p[0], i=n), dict(p[1], i=n - 1)] + p[2:], off=o["off"] + (n - 3) * sz))
        if o["size"] >= 0 and (len(p) < 3 or len(out) % 3 == 0):
            big = dict(k="s", n="Huge", pk=0, m=[dict(n="pad", of=PAD, w=0), dict(n="last", of=t, w=0)])
            st = dict(o="n" if len(out) % 2 else "m", i=1, n="last")
            h = dict(o, huge=1, root=big, path=[st] + p, off=o["off"] + 8000000000, rootvar=o["dk"] == "x")
            if not p:
                h.update(dk="m", nm="last")
            out.append(h)
    return out


def c06(ctx):
    exe = ctx.driver_plain("nav", ["nav_drv.c", "tdl.c", "alloc.c"])

    def model(j):
        n, d, mp, seed = j
        return ctx.tlc("Navigate", dict(Roots="{GenObj(%d) : i \\in 1..%d}" % (d, n), MaxPath=mp), spec="Spec", invariants=["Inside", "Aligned", "EmitInv"],
                       workers=1, seed=ctx.seed * 100 + seed, timeout=800, heap="2g")
    jobs = [(150, 2, 3, k) for k in range(4)] + [(60, 3, 4, k) for k in range(4, 8)] if ctx.quick else \
           [(800, 2, 3, k) for k in range(8)] + [(300, 3, 4, k) for k in range(8, 16)] + [(60, 4, 5, k) for k in range(16, 24)]
    for r in pmap(model, jobs, 8):
        st = lambda s: {"m": "m%(i)d", "n": "n%(n)s", "e": "e%(i)d", "c": "c%(i)d", "p": "p%(i)d", "C": "C%(i)d:%(n)s"}[s["o"]] % s
        cmds, exp = [], []
        lines = r["lines"] + huge(r["lines"])
        for o in lines:
            var = o["dk"] == "x" or o.get("rootvar")
            cmds.append(("H " if "huge" in o else "") + "%s %d %s | %s" % (("x var1 " if var else "") + tdl(o["root"]), size(o["root"]), " ".join(map(st, o["path"])), " ".join(map(st, o["bad"]))))
            # the value's own entry kind: its declaration kind
            dk = o["dk"]
            cur = None
            flags = {"p": 1 + (2 if o["pto"] == "v" else 0) + (4 if o["pto"] == "d" else 0), "e": 8, "b": 16}.get(o["fk"], 0)
            fk = KIND[{"d": "s"}.get(o["fk"], o["fk"])] if o["fk"] != "v" else -1
            exp.append((o["blk"], o["off"], dk, (BT[o["nm"]][0] if dk == "b" else o["nm"]) or "-", fk, sum(QBIT[q] for q in o["quals"]), o["size"], o["count"], o["members"], flags, "-" * len(o["bad"])))
        res = pbatch(exe, cmds, n=4)
        for o, c, x, got in zip(lines, cmds, exp, res):
            ctx.cov["traces_validated_against_impl"] += 1
            if got.startswith("?"):
                continue
            g = got.split(" ")
            ok = len(g) == 11 and not got.startswith("!")
            if ok:
                want = [str(v) for v in x]
                k = int(g[2])
                kinds = [KIND[x[2]]] if x[2] in KIND else [6, 7, 8]
                ok = k in kinds and [g[i] for i in range(11) if i != 2] == [want[i] for i in range(11) if i != 2]
            if not ok:
                ctx.violate("navigation: '%s' gave '%s', the specification says %s" % (c, got, x), command=c, got=got, expected=x, key=c)
        ctx.part("navigation", paths=len(cmds), beyond_32_bits=len(lines) - len(r["lines"]), types=len({json.dumps(o["root"]) for o in r["lines"]}))
        if cmds:
            ctx.sample(dict(path=cmds[len(cmds) // 2], answer=res[len(cmds) // 2]))
    ctx.assumptions += ["System V x86-64 layout rules for the modelled types", "zero-length arrays (a GNU extension) are not modelled"]


# ------------------------------------------------------------------- C07
BASETXT = {v[0].replace("~", " "): k for k, v in BT.items()}
BASEWORDS = {w for k in BASETXT for w in k.split()}
KEYW = {"struct", "union", "enum", "const", "volatile", "restrict", "void"}


def toks(text):
    """C tokens of a declaration; the words of a base type's name become one token."""
    raw = re.findall(r"\.\.\.|-?\d+|\w+|[^\s\w]", text)
    out, i = [], 0
    while i < len(raw):
        if raw[i] in BASEWORDS and raw[i] not in KEYW:
            j = i
            while j < len(raw) and raw[j] in BASEWORDS:
                j += 1
            w = " ".join(raw[i:j])
            out.append(BASETXT.get(w, "<" + w + ">"))
            i = j
        else:
            out.append(raw[i])
            i += 1
    return out


C07_BASES = """{B("int"), B("ullong"), Void, T("t2", P(B("char"))), T("t3", F(B("int"), <<>>)), T("t4", A(2, B("char"))), S("S1", <<M("m1", B("int"))>>), D("U1", "u"),
  E("", 4, <<[n |-> "ea", v |-> 0], [n |-> "eb", v |-> -7]>>), E("E1", 4, <<[n |-> "ea", v |-> 0]>>),
  S("", <<Bit("m1", B("uint"), 1), Bit("m2", B("bool"), 1), Bit("m3", B("ulong"), 64), M("m4", B("int"))>>), U("", <<Bit("m1", B("int"), 1), Bit("m2", B("int"), 32)>>)}"""


def c07(ctx):
    exe = ctx.driver_plain("cdecl", ["cdecl_drv.c", "tdl.c", "alloc.c"])

    def model(j):
        if j[0] == "all":
            return ctx.tlc("Cdecl", dict(Bases=j[1], MaxWrap=j[2], Texts="<<>>", Start="{}"), spec="Spec", invariants=["RoundTrip", "EmitInv"], workers=1, timeout=850, heap="3g")
        return ctx.tlc("Cdecl", dict(Bases=C07_BASES, MaxWrap=0, Texts="<<>>", Start="{GenD(R(%s)) : i \\in 1..%d}" % (j[1], j[2])), init="RInit", invariants=["RoundTrip", "EmitInv"],
                       workers=1, timeout=850, seed=ctx.seed * 100 + j[3], heap="3g")
    jobs = [("all", C07_BASES, 2), ("all", '{B("int")}', 3)] + [("rnd", "4..9", 600, k) for k in range(6)] if ctx.quick else \
           [("all", C07_BASES, 3), ("all", '{B("int")}', 4), ("all", '{T("t3", F(B("int"), <<>>))}', 4)] + [("rnd", "4..12", 4000, k) for k in range(8)]
    odd = []

    def one(j):
        r = model(j)
        seen, ls = set(), []
        for o in r["lines"]:
            k = json.dumps(o, sort_keys=True)
            if k not in seen and not (o["dk"] == "t" and o["t"]["k"] == "v"):
                seen.add(k)
                ls.append(o)
        cmds = []
        for o in ls:
            t = o["t"]
            cmds.append("x nm " + tdl(t) if o["dk"] == "x" else tdl(dict(t, k="g", n="fn")) if o["dk"] == "g" else tdl(t))
        res = pbatch(exe, cmds, n=2)
        for o, c, got in zip(ls, cmds, res):
            if got.startswith("?"):
                continue
            bad = None
            if got.startswith("!") or got.endswith(" LEAK") or got == "-":
                bad = "gave '%s'" % got
            else:
                if o["dk"] == "t":
                    if got.count("%s") != 1 or got.count("%") != 1:
                        bad = "has no single placeholder: '%s'" % got
                    got = got.replace("%s", "nm")
                tk = toks(got)
                if not bad and tk != o["toks"]:
                    with LOCK:
                        odd.append((o, c, got, tk))
            if bad:
                with LOCK:
                    ctx.violate("declaration of '%s' %s" % (c, bad), command=c, got=got, key=c)
            o["got"] = got
        with LOCK:
            ctx.cov["traces_validated_against_impl"] += len(ls)
            ctx.part("declarations", exhaustive=sum(1 for _ in ls) if j[0] == "all" else 0, random=0 if j[0] == "all" else len(ls))
            ctx.sample(dict(type=cmds[len(cmds) // 2], text=res[len(cmds) // 2]))
        return [(json.dumps(o["t"], sort_keys=True), o["dk"], o.get("got"), " ".join(o["toks"])) for o in ls]
    allr = pmap(one, jobs, 8)
    # different types, same text: only when they have the same C spelling
    by = {}
    for t, dk, got, spell in (x for r in allr for x in r):
        if got:
            by.setdefault((dk, got), set()).add(spell)
    for (dk, got), sp in by.items():
        if len(sp) > 1:
            ctx.violate("types with different C spellings share the text '%s': %s" % (got, sorted(sp)[:3]), text=got, key=got)
    ctx.part("declarations", judged_by_parsing=len(odd))
    if odd:
        odd = odd[:3000]
        d = ctx.mk("texts")
        f = os.path.join(d, "texts.json")
        json.dump([dict(t=o["t"], dk=o["dk"], toks=tk) for o, _, _, tk in odd], open(f, "w"))
        r = ctx.tlc("Cdecl", dict(Bases="{}", MaxWrap=0, Start="{}", Texts='JsonDeserialize("%s")' % f), init="JInit", nxt="Next", invariants=["Judge"], timeout=300)
        ok = {l["i"]: l["ok"] for l in r["lines"]}
        for i, (o, c, got, tk) in enumerate(odd):
            if ok.get(i + 1) is not True:
                ctx.violate("'%s' was declared as '%s', which is a different type; correct is '%s'" % (c, got, " ".join(o["toks"])), command=c, got=got, key=c)
    ctx.assumptions += ["debug information does not tell 'int f()' from 'int f(void)': an empty parameter list stands for no parameters"]
