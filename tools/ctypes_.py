"""Types emitted by spec/CTypes.tla -> driver tokens (drivers/tdl.h)."""
from c_scalar import BT
BASE_ALIGN = {"cfloat": 4, "cdouble": 8, "cldouble": 16}
nm = lambda n: n.replace(" ", "~") if n else "-"


def final(t):
    while t["k"] in "qt":
        t = t["of"]
    return t


def up(x, a):
    return (x + a - 1) // a * a


def align(t):
    k = t["k"]
    if k == "b": return BASE_ALIGN.get(t["n"], BT[t["n"]][2])
    if k == "p": return 8
    if k == "e": return t["z"]
    if k in "aqt": return align(t["of"])
    if k in "su": return 1 if t["pk"] else max([align(m["of"]) for m in t["m"]] or [1])
    return 1


def msize(t):
    f = final(t)
    return 0 if f["k"] == "a" and f["c"] == -1 else size(t)


def offsets(t):
    o, r = 0, []
    for m in t["m"]:
        if t["k"] == "u":
            r.append(0)
            continue
        if not t["pk"]:
            o = up(o, align(m["of"]))
        r.append(o)
        o += msize(m["of"])
    return r, o


def size(t):
    k = t["k"]
    if k == "b": return BT[t["n"]][2]
    if k == "p": return 8
    if k == "e": return t["z"]
    if k == "a": return t["c"] * size(t["of"])
    if k in "qt": return size(t["of"])
    if k == "s": return up(offsets(t)[1], align(t))
    if k == "u": return up(max([msize(m["of"]) for m in t["m"]] or [0]), align(t))
    return 0


def member(m, o):
    if m.get("b"):
        return "m4 %s 0 %d %d %s" % (nm(m["n"]), 8 * o, m["b"], tdl(m["of"]))
    return "m %s %d %s" % (nm(m["n"]), o, tdl(m["of"]))


def tdl(t):
    k = t["k"]
    if k == "b": return "b %s %d %d" % BT[t["n"]]
    if k == "v": return "v"
    if k == "p": return "p " + tdl(t["of"])
    if k == "a": return "a %d %s" % (t["c"], tdl(t["of"]))
    if k == "q": return {"const": "c ", "volatile": "V ", "restrict": "r "}[t["q"]] + tdl(t["of"])
    if k == "t": return "t %s %s" % (t["n"], tdl(t["of"]))
    if k in "su":
        return "%s %s %d %d %s" % (k, nm(t["n"]), size(t), len(t["m"]),
               " ".join(member(m, o) for m, o in zip(t["m"], offsets(t)[0])))
    if k == "e": return "e %s %d %d %s" % (nm(t["n"]), t["z"], len(t["v"]), " ".join("%s %s" % (x["n"], x.get("s", x["v"])) for x in t["v"]))
    if k == "g": return "g %s %s %d %s" % (t["n"], tdl(t["of"]), len(t["ps"]), " ".join("d" if p["n"] == "..." else "q %s %s" % (nm(p["n"]), tdl(p["of"])) for p in t["ps"]))
    if k == "f": return "f %s %d %s" % (tdl(t["of"]), len(t["ps"]), " ".join("d" if p["n"] == "..." else "q %s %s" % (nm(p["n"]), tdl(p["of"])) for p in t["ps"]))
    if k == "d": return "%s %s" % (t["su"].upper(), t["n"])
    raise ValueError(t)
