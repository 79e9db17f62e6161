"""C source of types of spec/CTypes.tla."""
CBASE = {"char": "char", "uchar": "unsigned char", "schar": "signed char", "short": "short", "ushort": "unsigned short", "int": "int", "uint": "unsigned int",
         "long": "long", "ulong": "unsigned long", "llong": "long long", "ullong": "unsigned long long", "bool": "_Bool", "float": "float", "double": "double",
         "ldouble": "long double", "cfloat": "float _Complex", "cdouble": "double _Complex", "cldouble": "long double _Complex", "int128": "__int128"}
KW = {"s": "struct", "u": "union"}


def decl(t, d, rn=lambda n: n):
    """declaration of declarator d with type t; rn renames tags and typedefs"""
    k = t["k"]
    if k == "b": return (CBASE[t["n"]] + " " + d).rstrip()
    if k == "v": return ("void " + d).rstrip()
    if k == "r": return ("struct %s %s" % (rn(t["n"]), d)).rstrip()
    if k == "d": return ("%s %s %s" % (KW[t["su"]], rn(t["n"]), d)).rstrip()
    if k == "t": return (rn(t["n"]) + " " + d).rstrip()
    if k == "l": return ("va_list " + d).rstrip()
    if k in "su":
        if t["n"]: return ("%s %s %s" % (KW[k], rn(t["n"]), d)).rstrip()
        return (body(t, rn) + " " + d).rstrip()
    if k == "e":
        if t["n"]: return ("enum %s %s" % (rn(t["n"]), d)).rstrip()
        return (ebody(t, rn) + " " + d).rstrip()
    if k == "q":
        f = t["of"]
        if f["k"] == "p": return decl(f, t["q"] + (" " + d if d else ""), rn)
        if f["k"] == "q":
            g = f
            while g["k"] == "q": g = g["of"]
            if g["k"] == "p": return decl(f, t["q"] + (" " + d if d else ""), rn)
        return t["q"] + " " + decl(f, d, rn)
    if k == "p":
        f = t["of"]
        while f["k"] == "q": f = f["of"]
        return decl(t["of"], "(*%s)" % d if f["k"] in "af" else "*" + d, rn)
    if k == "a": return decl(t["of"], "%s[%s]" % (d, "" if t["c"] < 0 else t["c"]), rn)
    if k == "f": return decl(t["of"], "%s(%s)" % (d, params(t["ps"], rn)), rn)
    raise ValueError(t)


def params(ps, rn=lambda n: n):
    return ", ".join("..." if p["n"] == "..." else decl(p["of"], p["n"], rn) for p in ps) or "void"


def body(t, rn=lambda n: n, head=""):
    """structure or union specifier with its members"""
    ms = " ".join(decl(m["of"], m["n"] + (" : %d" % m["b"] if m.get("b") else ""), rn) + ";" for m in t["m"])
    return "%s %s%s{ %s }" % (KW[t["k"]], "__attribute__((packed)) " if t.get("pk") else "", (rn(t["n"]) + " ") if t["n"] else "", ms)


def ebody(t, rn=lambda n: n):
    vs = ", ".join("%s = %s" % (rn(v["n"]), v["v"]) for v in t["v"])
    if t["z"] == 8: vs += ", %s = 0x100000000L" % rn("eL" + t["n"])
    return "enum %s%s{ %s }" % ("__attribute__((packed)) " if t["z"] < 4 else "", (rn(t["n"]) + " ") if t["n"] else "", vs + (", %s = 0x1000" % rn("eL" + t["n"]) if t["z"] == 2 else ""))
