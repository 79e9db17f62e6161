"""C25: queries on descriptions (spec/Entries.tla)."""
from vlib import *
from c_scalar import BT
from c_types import KIND, QUAL, QBIT
import ctypes_
from ctypes_ import nm

KINDS = dict(KIND, **{"par": 20, "...": 20, "v": -1})
IS = {"cfloat": "float_complex", "cdouble": "double_complex", "cldouble": "ldouble_complex", "schar": None}


def member(m, o):
    if "b" not in m:
        return "m %s %d %s" % (nm(m["n"]), o, tdl(m["of"]))
    if m["enc"] == 4:
        return "m4 %s 0 %d %d %s" % (nm(m["n"]), 8 * o + m["bo"], m["b"], tdl(m["of"]))
    z = ctypes_.size(m["of"])
    return "m3 %s %d %d %d %d %s" % (nm(m["n"]), o, z, 8 * z - m["bo"] - m["b"], m["b"], tdl(m["of"]))


def tdl(t):
    k = t["k"]
    if k == "p": return "p " + tdl(t["of"])
    if k == "a": return "a %d %s" % (t["c"], tdl(t["of"]))
    if k == "q": return {"const": "c ", "volatile": "V ", "restrict": "r "}[t["q"]] + tdl(t["of"])
    if k == "t": return "t %s %s" % (t["n"], tdl(t["of"]))
    if k == "x": return "x %s %s" % (t["n"], tdl(t["of"]))
    if k in "su":
        return "%s %s %d %d %s" % (k, nm(t["n"]), ctypes_.size(t), len(t["m"]), " ".join(member(m, o) for m, o in zip(t["m"], ctypes_.offsets(t)[0])))
    if k in "gf":
        return "%s%s %d %s" % ("g %s " % t["n"] if k == "g" else "f ", tdl(t["of"]), len(t["ps"]), " ".join("d" if p["n"] == "..." else "q %s %s" % (nm(p["n"]), tdl(p["of"])) for p in t["ps"]))
    return ctypes_.tdl(t)


def mv(m):
    return "%s%d%s" % (m["o"], m["fin"], m["n"] if m["o"] in "nA" else str(m["i"]) if m["o"] in "mac" else "")


def kind(k, q="", su=""):
    return QUAL[q] if k == "q" else {"s": 16, "u": 17}[su] if k == "d" else KINDS[k]


def first(names):
    """each name with the place a search for it finds"""
    return "".join("%s:%d," % (n, i if not n or n == "..." else names.index(n)) for i, n in enumerate(names))


def expected(o, moves):
    base = o["fk"] == "b"
    b = BT[o["fn"]] if base else None
    e = {"kind": kind(o["dk"], o["q"], o["fsu"]), "name": (BT[o["nm"]][0] if o["dk"] == "b" else nm(o["nm"])), "dyn": int(o["dyn"]),
         "fkind": kind(o["fk"], "", o["fsu"]), "fname": b[0] if base else nm(o["nm"] if o["fk"] == "g" else o["fn"]), "quals": sum(QBIT[q] for q in o["quals"]),
         "size": o["size"], "base": int(base), "bname": b[0] if base else "-", "bsize": b[2] if base else -1, "benc": b[1] if base else -1,
         "is": IS.get(o["fn"], o["fn"]) + "," if base and IS.get(o["fn"], o["fn"]) else "", "ptr": int(o["fk"] == "p"), "vp": int(o["vp"]), "dp": int(o["dp"]),
         "arr": int(o["fk"] == "a"), "count": o["count"], "enum": int(o["fk"] == "e"),
         "en": "".join("%s:%d:%s," % (n, v, next(m for m, w in o["en"] if w == v)) for n, v in o["en"]),
         "agg": int(o["agg"]), "mc": len(o["ms"]) if o["agg"] else -1, "ms": first(o["ms"]), "memb": int(o["dk"] == "m"),
         "fn": int(o["isf"]), "pc": len(o["ps"]) if o["isf"] else -1, "ps": first(o["ps"]),
         "par": int(o["dk"] in ("par", "...")), "un": int(o["dk"] == "..."), "va": int(o["va"]), "load": int(o["isf"] or o["dk"] == "..." or o["va"]),
         "hasres": int(o["res"] != "v"), "cr": "-" if o["ressz"] == -1 else "%d,1,1" % o["ressz"], "mv": "".join(moves)}
    if o["dk"] == "m":
        e["loc"] = "0,%d,%d,%d" % (o["pos"] // 8, o["pos"] % 8, max(o["w"], 0))
    else:
        e["raw"] = e["loc"] = "-"
    if o["size"] == -2:
        del e["size"]
    if o["ressz"] == -2:
        del e["cr"]
    return {k: str(v) for k, v in e.items()}


def c25(ctx):
    exe = ctx.driver_plain("entry", ["entry_drv.c", "tdl.c", "alloc.c"])

    def one(j):
        n, mp, k = j
        r = ctx.tlc("Entries", dict(Roots="{RRoot(i) : i \\in 1..%d}" % n, MaxPath=mp), spec="Spec", invariants=["SeesThrough", "ByNameByPlace", "CopiesAgree", "CountOnly", "EmitInv"],
                    workers=1, seed=ctx.seed * 100 + k, timeout=850, heap="3g")
        cmds, exp = [], []
        for o in r["lines"]:
            ms = [(mv(m), "Y") for m in o["yes"]] + [(mv(m), "-") for m in o["no"]]
            cmds.append("%s | %s | %s" % (tdl(o["root"]), " ".join(map(mv, o["path"])), " ".join(m for m, _ in ms)))
            exp.append(expected(o, [a for _, a in ms]))
        res = pbatch(exe, cmds, n=2)
        with LOCK:
            for c, x, got in zip(cmds, exp, res):
                if got.startswith("?"):
                    continue
                ctx.cov["traces_validated_against_impl"] += 1
                w = dict(a.partition("=")[::2] for a in got.split(" "))
                bad = [a for a in x if w.get(a) != x[a]] + [a for a in w if a not in x and a not in ("raw", "loc", "size", "cr")]
                if bad or got.startswith("!"):
                    ctx.violate("description '%s' reached by '%s': %s" % (c.split(" | ")[0], c.split(" | ")[1], got[:200] if got.startswith("!") else
                                "; ".join("%s gave '%s', declared '%s'" % (a, w.get(a), x.get(a)) for a in bad)), command=c, got=got, expected=x, key=c)
            ctx.part("queries", descriptions=len(cmds), declarations=len({json.dumps(o["root"]) for o in r["lines"]}), moves=sum(len(x["mv"]) for x in exp))
            if cmds:
                ctx.sample(dict(path=cmds[len(cmds) // 2][:300], answer=res[len(cmds) // 2]))
    pmap(one, [(60, 3, k) for k in range(8)] if ctx.quick else [(400, 3, k) for k in range(16)] + [(60, 4, k) for k in range(16, 24)], 8)
    ctx.assumptions += ["System V x86-64 layout rules for the modelled types", "bit-fields described with DWARF 3 and DWARF 4 attributes"]
