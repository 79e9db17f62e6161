"""C03 (base types), C04 (bit-fields), C05 (enumerations): cells of memory, spec/Cells.tla and spec/EnumCells.tla."""
from vlib import *
import struct

BT = {"char": ("char", 7, 1), "uchar": ("unsigned~char", 9, 1), "schar": ("signed~char", 7, 1),
      "short": ("short~int", 6, 2), "ushort": ("unsigned~short~int", 8, 2), "int": ("int", 6, 4), "uint": ("unsigned~int", 8, 4),
      "long": ("long~int", 6, 8), "ulong": ("unsigned~long~int", 8, 8), "llong": ("long~long~int", 6, 8),
      "ullong": ("unsigned~long~long~int", 8, 8), "bool": ("_Bool", 3, 1), "float": ("float", 5, 4), "double": ("double", 5, 8),
      "ldouble": ("long~double", 5, 16), "cfloat": ("complex~float", 4, 8), "cdouble": ("complex~double", 4, 16),
      "cldouble": ("long~complex~double", 4, 32), "int128": ("__int128", 6, 16)}
ACC = [k for k in BT if k not in ("schar", "int128")]
INTS = ["char", "uchar", "short", "ushort", "int", "uint", "long", "ulong", "llong", "ullong", "bool"]
tla = lambda b: "<<%s>>" % ", ".join(map(str, b))
hx = lambda b: bytes(b).hex() or "-"


def ld(mant, exp):
    return list(struct.pack("<QH", mant, exp)) + [0] * 6


def patterns(t, rng, n=2):
    """Boundary bit patterns of a type, plus n random ones."""
    s = BT[t][2]
    if t == "bool":
        return [[0], [1]]
    if t in INTS or t in ("schar", "int128"):
        out = [[0] * s, [255] * s, [0] * (s - 1) + [128], [255] * (s - 1) + [127], [1] + [0] * (s - 1)]
        if s == 8:
            out += [[255] * 4 + [0] * 4, [0] * 4 + [1, 0, 0, 0], [0, 0, 0, 128] + [255] * 4]
        return out + [[rng.randrange(256) for _ in range(s)] for _ in range(n)]
    fl = {"float": lambda: [struct.pack("<f", x) for x in (0.0, -0.0, 1.5, float("inf"), float("-inf"), 1e-45, -3.25)] + [b"\0\0\xc0\x7f", b"\1\0\x80\xff"],
          "double": lambda: [struct.pack("<d", x) for x in (0.0, -0.0, 1.5, float("inf"), -2.5, 5e-324, 1 / 3)] + [b"\0\0\0\0\0\0\xf8\x7f", b"\1\0\0\0\0\0\xf8\xff"],
          "ldouble": lambda: [bytes(ld(m, e)) for m, e in ((0, 0), (0, 0x8000), (1 << 63, 0x3fff), (1 << 63, 0x7fff), (3 << 62, 0x7fff), (1, 0), ((1 << 63) | 12345, 0xc001))]}
    base = {"cfloat": "float", "cdouble": "double", "cldouble": "ldouble"}.get(t)
    if base is None:
        return [list(x) for x in fl[t]()]
    c = fl[base]()
    pick = [(0, 0), (0, 1), (1, 0), (2, 6), (6, 2), (0, len(c) - 1), (4 % len(c), 0), (3, 5)]
    if base == "ldouble":
        pick = [(0, 0), (0, 1), (2, 6), (6, 2), (0, 4), (4, 0), (3, 5)]
    return [list(c[i]) + list(c[j]) for i, j in pick]


def cell(t, mem, pos=0, width=None, wrap="plain"):
    return dict(ty=t, pos=pos, width=8 * BT[t][2] if width is None else width, wrap=wrap, mem=mem)


def cell_tla(c):
    return '[ty |-> "%s", pos |-> %d, width |-> %d, wrap |-> "%s", mem |-> %s]' % (c["ty"], c["pos"], c["width"], c["wrap"], tla(c["mem"]))


WRAPS = {"plain": "%s", "typedef": "t my_t %s", "const": "c %s", "volatile": "V %s", "td2": "t a_t V t b_t %s", "tdconst": "t a_t c t b_t %s",
         "var": "x var1 %s", "param": "q par1 %s", "constvar": "x var1 c %s", "cv": "c V %s"}


def cell_tokens(c):
    """Driver description of a cell; mem4/mem3 wraps are bit-field members in the two debug-info encodings."""
    t = "b %s %d %d" % BT[c["ty"]]
    w, n, sz = c["wrap"], len(c["mem"]), BT[c["ty"]][2]
    if w == "elem":
        k = n // sz
        return "a %d %s e%d %s" % (k, t, c["pos"] // (8 * sz), hx(c["mem"]))
    if w in ("member", "umember"):
        off = c["pos"] // 8
        return "%s S %d 2 m z 0 b char 7 1 m f %d %s m1 %s" % ("s" if w == "member" else "u", n, off, t, hx(c["mem"]))
    if w == "bf4" or w == "bf4td":
        return "s S %d 1 m4 f 0 %d %d %s m0 %s" % (n, c["pos"], c["width"], ("t b_t V " if w == "bf4td" else "") + t, hx(c["mem"]))
    if w.startswith("bf3"):       # storage unit: the aligned unit of the type that contains the field
        unit = 8 * sz
        off = (c["pos"] // unit) * sz
        bo = unit - (c["pos"] - 8 * off) - c["width"]
        return "s S %d 1 m3 f %d %d %d %d %s m0 %s" % (n, off, sz, bo, c["width"], t, hx(c["mem"]))
    return "%s . %s" % (WRAPS[w] % t, hx(c["mem"]))


def fnum(b):
    """bytes of a floating point number -> how printf's %f shows it"""
    from fractions import Fraction
    if len(b) < 16:
        x = struct.unpack("<f" if len(b) == 4 else "<d", bytes(b))[0]
        neg, frac = struct.pack(">d", x)[0] >= 128, None
        if x != x or x in (float("inf"), float("-inf")):
            return ("-" if b[-1] >= 128 else "") + ("nan" if x != x else "inf")
        return "%f" % x
    m, e = struct.unpack("<QH", bytes(b[:10]))
    sg, e = "-" if e & 0x8000 else "", e & 0x7fff
    if e == 0x7fff:
        return sg + ("inf" if m << 1 & (2 ** 64 - 1) == 0 else "nan")
    q = Fraction(m) * Fraction(2) ** (max(e, 1) - 16383 - 63) * 10 ** 6
    n = q.numerator // q.denominator
    r = q - n
    if r > Fraction(1, 2) or (r == Fraction(1, 2) and n % 2):
        n += 1
    return "%s%d.%06d" % (sg, n // 10 ** 6, n % 10 ** 6)


def ctext(v, n):
    """the texts that show a complex number: the sign of the imaginary part may stand before the I or with the number"""
    re_, im = fnum(v[:n]), fnum(v[n:2 * n])
    return ["T%s + I * %s" % (re_, im)] + (["T%s - I * %s" % (re_, im[1:])] if im[0] == "-" else [])


def out_str(o):
    k, v = o["k"], o["v"]
    return {"v": lambda: "V" + hx(v), "e": lambda: "E", "ok": lambda: "OK", "n": lambda: "N%d" % v[0],
            "set": lambda: "S" + "".join(p + x for p in (",", ",+") for x in sorted(v, key=list(BT).index)), "any": lambda: None,
            "txt": lambda: "T" + v[0], "chr": lambda: "T'%s%c'" % ("\\" if v[1] else "", v[0]), "flt": lambda: "T" + fnum(v), "cpl": lambda: ctext(v, o["n"])}[k]()


def replay_cells(ctx, exe, lines, prefix):
    cmds, exp = [], []
    for e in lines:
        l = e["l"]
        c = [l["op"], cell_tokens(e["a"])]
        two = l["op"] in ("eq", "cp")
        if two:
            c.append(cell_tokens(e["b"]))
        if l["acc"]:
            c.append(l["acc"])
        if l["op"] == "wr":
            c.append(hx(l["arg"]))
        cmds.append(" ".join(c))
        outs = [x for o in l["out"] for x in (lambda y: y if isinstance(y, list) else [y])(out_str(o))]
        if l["op"] in ("str", "strv"):
            outs = ["T" if x == "E" else x for x in outs]
        exp.append((outs, hx(e["x"]) + (" " + hx(e["y"]) if two else "")))
    res = pbatch(exe, cmds)
    for e, c, (outs, mem), r in zip(lines, cmds, exp, res):
        ctx.cov["traces_validated_against_impl"] += 1
        if r.startswith("?"):
            continue
        head, _, tail = r.rpartition(" ") if e["l"]["op"] in ("str", "strv") else r.partition(" ")
        bad = r.startswith("!") or tail != mem or not (head in outs or (None in outs and re.fullmatch(r"N-?\d+|E", head)))
        if bad:
            ctx.violate("%s: '%s' gave '%s'; the specification allows %s with memory '%s'" % (prefix, c, r, outs, mem),
                        command=c, got=r, allowed=outs, memory=mem, key="%s %s" % (prefix, c))
    ctx.part(prefix, calls=len(cmds))
    for i in range(0, len(cmds), max(1, len(cmds) // 2 + 1)):
        ctx.sample(dict(call=cmds[i], answer=res[i]))


def pats_expr(d):
    return "[t \\in {%s} |-> CASE %s]" % (", ".join('"%s"' % t for t in d),
           " [] ".join('t = "%s" -> {%s}' % (t, ", ".join(map(tla, v))) for t, v in d.items()))


def run_cells(ctx, pairs, pats, ops, name, exe):
    fn = " [] ".join('t = "%s" -> {%s}' % (t, ", ".join(map(tla, v))) for t, v in pats.items()) or 't = "" -> {}'
    mod = "---- MODULE CellsRun ----\nEXTENDS Cells\nmcp(t) == CASE %s [] OTHER -> {}\nmcPairs == {%s}\n====\n" % (
        fn, ",\n".join("<<%s, %s>>" % (cell_tla(a), cell_tla(b)) for a, b in pairs))
    r = ctx.tlc("CellsRun", {"Pairs": "mcPairs", "Pats": None, "Ops": "{%s}" % ", ".join('"%s"' % o for o in ops)},
                spec="Spec", properties=["WriteIsolated", "ReadBack", "CopyEqual", "Stable"], action_constraint="Emit",
                extra_files={"CellsRun.tla": mod}, subst={"Pats": "mcp"}, timeout=800)
    replay_cells(ctx, exe, r["lines"], name)


def c03(ctx):
    exe = ctx.driver_plain("val", ["val_drv.c", "tdl.c", "alloc.c"])
    rng = ctx.rng
    P = {t: patterns(t, rng, 2 if ctx.quick else 6) for t in BT}
    W = {t: (P[t][:3] if ctx.quick else P[t]) for t in ACC}
    dummy = cell("char", [7])
    # every stored type x every accessor, boundary patterns
    run_cells(ctx, [(cell(t, m), dummy) for t in BT for m in (P[t][:4] if ctx.quick else P[t])], {t: W[t][:2] for t in W},
              ["rd", "wr", "is", "num"], "accessors", exe)
    # every pattern of every type through its own accessor
    run_cells(ctx, [(cell(t, m), dummy) for t in BT for m in P[t]], {}, ["rd", "num", "is"], "patterns", exe)
    # all wrappers
    ws = [w for w in WRAPS if w != "plain"]
    prs = []
    for t in BT:
        m = P[t][-1] if t in INTS else P[t][2 % len(P[t])]
        prs += [(cell(t, m, wrap=w), dummy) for w in ws]
        s = BT[t][2]
        big = [(17 * i + 3) % 251 for i in range(4 * s)]
        if t in INTS and t != "bool":
            prs += [(cell(t, big, pos=8 * s * k, wrap=w), dummy) for k in (1, 2, 3) for w in ("elem", "member", "umember")]
    run_cells(ctx, prs, {t: W[t][-2:] for t in W}, ["rd", "wr", "is", "num"], "wrappers", exe)
    # compare and copy: all type pairs, and all pattern pairs of one type
    prs = [(cell(t, P[t][0]), cell(u, P[u][k % len(P[u])])) for t in BT for u in BT for k in (0, 1)]
    prs += [(cell(t, a), cell(t, b)) for t in BT for a in P[t] for b in P[t]]
    prs += [(cell(t, P[t][1], wrap=w), cell(t, P[t][0], wrap=x)) for t in BT for w in WRAPS for x in (ws if not ctx.quick else rng.sample(ws, 3))]
    run_cells(ctx, prs, {}, ["eq", "cp"], "compare-copy", exe)
    ctx.assumptions += ["padding bytes of x87 long double are not part of its value", "_Bool objects hold 0 or 1"]


def bf_fields(ctx, rng):
    """(type, position, width): all widths, structured and random positions, aligned units and packed ones."""
    out = []
    for t in INTS:
        sz = BT[t][2]
        for w in ([1] if t == "bool" else range(1, 8 * sz + 1)):
            mx = 8 * sz - w
            ps = {0, mx, mx // 2, rng.randint(0, mx), min(mx, 7)} if ctx.quick else set(range(0, mx + 1))
            for p in ps:
                unit = rng.choice([0, 1, 2]) if ctx.quick else 1
                out.append((t, unit * 8 * sz + p, w, "bf3"))
                out.append((t, unit * 8 * sz + p, w, "bf4" if (p + w) % 5 else "bf4td"))
            for d in ([rng.randint(1, 7)] if ctx.quick else range(1, 8)):      # packed: any bit position
                out.append((t, 8 * sz + (mx + d if mx + d < 16 * sz else d), w, "bf4"))
    return out


def c04(ctx):
    exe = ctx.driver_plain("val", ["val_drv.c", "tdl.c", "alloc.c"])
    rng = ctx.rng
    F = bf_fields(ctx, rng)
    dummy = cell("char", [7])

    def mem(t, p, w, k):
        n = max(3 * BT[t][2], (p + w + 7) // 8)
        return [[0] * n, [255] * n, [0xA5, 0x3C][:1] * n, [rng.randrange(256) for _ in range(n)]][k]
    W = {t: [[0] * BT[t][2], [255] * BT[t][2], [rng.randrange(256) for _ in range(BT[t][2])]] for t in INTS}
    W["bool"] = [[0], [1]]
    for part, ks in (("bit-fields", (0, 1)), ("bit-fields-random", (3,))):
        prs = [(cell(t, mem(t, p, w, k), p, w, wr), dummy) for t, p, w, wr in F for k in ks]
        # own accessor only (the others are covered below)
        for g in ([INTS] if ctx.quick else [[t] for t in INTS]):
            run_cells_own(ctx, [x for x in prs if x[0]["ty"] in g], W, part, exe)
    few = rng.sample(F, 60 if ctx.quick else 600)
    run_cells(ctx, [(cell(t, mem(t, p, w, 3), p, w, wr), dummy) for t, p, w, wr in few], {t: W[t][1:2] for t in W}, ["rd", "wr", "is", "num"],
              "bit-field-accessors", exe)
    by = collections.defaultdict(list)
    for f in F:
        by[f[0]].append(f)
    prs = []
    for t in INTS:
        for _ in range(120 if ctx.quick else 1500):
            a, b = rng.choice(by[t]), rng.choice(by[t])
            k1, k2 = rng.choice([0, 1, 3]), rng.choice([0, 1, 3])
            x, y = cell(t, mem(*a[:3], k1), *a[1:]), cell(t, mem(*b[:3], k2), *b[1:])
            pl = cell(t, [rng.randrange(2 if t == "bool" else 256) for _ in range(BT[t][2])])
            prs += [(x, y), (x, pl), (pl, y)]
        # same value seen through different fields
        for _ in range(40 if ctx.quick else 400):
            a, b = rng.choice(by[t]), rng.choice(by[t])
            w = min(a[2], b[2])
            v = rng.getrandbits(w)
            if BT[t][1] in (6, 7) and w > 1:
                v &= (1 << (w - 1)) - 1

            def emb(f):
                m = int.from_bytes(bytes(mem(*f[:3], 3)), "little")
                msk = ((1 << f[2]) - 1) << f[1]
                n = len(mem(*f[:3], 3))
                return list(((m & ~msk) | (v << f[1])).to_bytes(n, "little"))
            prs.append((cell(t, emb(a), *a[1:]), cell(t, emb(b), *b[1:])))
    run_cells(ctx, prs, {}, ["eq", "cp"], "bit-field-compare-copy", exe)
    ctx.assumptions += ["little-endian host, as the code itself states"]


def run_cells_own(ctx, pairs, W, name, exe):
    run_cells(ctx, pairs, W, ["own"], name, exe)


def c08_scalars(ctx):
    """texts of scalars of every type, as they are, wrapped, as elements, members and bit-fields"""
    exe = ctx.driver_plain("val", ["val_drv.c", "tdl.c", "alloc.c"])
    rng = ctx.rng
    dummy = cell("char", [7])
    dec = [0.1, -0.5, 0.4999995, 2.5e-7, -1e-9, 123456.789, 0.9999996, 1e15, -9007199254740991.0, 1e22, 1e38]
    big = lambda m, e: ld(m | 1 << 63, e)
    P = {}
    for t in BT:
        if t == "int128":
            continue
        s = BT[t][2]
        p = patterns(t, rng, 8 if ctx.quick else 60)
        if t in INTS or t == "schar":
            if s == 1 and t != "bool":
                p = [[i] for i in range(256)]
            elif t != "bool":
                p += [list((v % 256 ** s).to_bytes(s, "little")) for k in range(20) for v in (10 ** k - 1, 10 ** k, -10 ** k, 2 ** (3 * k), -2 ** (3 * k) - 1)]
        else:
            f = {"float": lambda x: list(struct.pack("<f", x)), "double": lambda x: list(struct.pack("<d", x)), "ldouble": None}
            one = {"float": "float", "double": "double", "ldouble": "ldouble", "cfloat": "float", "cdouble": "double", "cldouble": "ldouble"}[t]
            xs = [f[one](x) for x in dec] if f[one] else [big(rng.getrandbits(63), e | sg) for e in (0x3fff - 30, 0x3fff - 21, 0x3fff - 19, 0x3fff - 1, 0x3fff, 0x3fff + 10, 0x3fff + 62, 0x3fff + 66, 0x3fff + 200) for sg in (0, 0x8000)]
            if t[0] == "c":
                rnd = [(rng.choice(xs), rng.choice(xs)) for _ in range(40)]
                p += [a + b for a, b in rnd] + [xs[0] + x for x in xs] + [x + xs[1] for x in xs]
            else:
                p += xs + [f[one](x) for x in [rng.uniform(-1, 1), rng.uniform(-1e6, 1e6), rng.gauss(0, 1e12)]] if f[one] else xs
        P[t] = p
    run_cells(ctx, [(cell(t, m), dummy) for t in P for m in P[t]], {}, ["str"], "scalar-text", exe)
    ws = [w for w in WRAPS if w != "plain"]
    prs = [(cell(t, rng.choice(P[t]), wrap=w), dummy) for t in P for w in ws for _ in range(1 if ctx.quick else 6)]
    for t in INTS:
        s = BT[t][2]
        if t != "bool":
            prs += [(cell(t, [rng.randrange(256) for _ in range(4 * s)], pos=8 * s * k, wrap=w), dummy) for k in (1, 2, 3) for w in ("elem", "member", "umember")]
    F = bf_fields(ctx, rng)
    for t, p, w, wr in rng.sample(F, 250 if ctx.quick else 3000):
        n = max(3 * BT[t][2], (p + w + 7) // 8)
        prs.append((cell(t, [rng.randrange(256) for _ in range(n)], p, w, wr), dummy))
    run_cells(ctx, prs, {}, ["str"], "scalar-text-placed", exe)


# ------------------------------------------------------------------------ C05
def enum_tokens(t, c, nm="E"):
    v = lambda b: str(int.from_bytes(bytes(b), "little", signed=True))
    e = "e %s %d %d %s" % (nm, t["size"], len(t["nums"]), " ".join("e%d %s" % (i + 1, v(n)) for i, n in enumerate(t["nums"])))
    sh, m = c["sh"], hx(c["mem"])
    w = sh["wrap"]
    if w == "plain":
        return "%s . %s" % (e, m)
    if w == "td":
        return "t my_e V t e2 %s . %s" % (e, m)
    if w == "member":
        return "s S %d 1 m f %d %s m0 %s" % (sh["len"], sh["pos"] // 8, e, m)
    if w == "elem":
        return "a %d %s e%d %s" % (sh["len"] // t["size"], e, sh["pos"] // (8 * t["size"]), m)
    if w == "bf4":
        return "s S %d 1 m4 f 0 %d %d %s m0 %s" % (sh["len"], sh["pos"], sh["width"], e, m)
    unit = 8 * t["size"]
    off = (sh["pos"] // unit) * t["size"]
    return "s S %d 1 m3 f %d %d %d %d %s m0 %s" % (sh["len"], off, t["size"], unit - (sh["pos"] - 8 * off) - sh["width"], sh["width"], e, m)


def c05(ctx):
    exe = ctx.driver_plain("val", ["val_drv.c", "tdl.c", "alloc.c"])
    rng = ctx.rng
    jobs = []
    for z in (1, 2, 4, 8):
        dom = [[0] * z, [255] * z, [0] * (z - 1) + [128], [255] * (z - 1) + [127], [200] + [0] * (z - 1)]
        rnd = [rng.randrange(256) for _ in range(z)]
        sh = lambda l, p, w, wr: '[len |-> %d, pos |-> %d, width |-> %d, wrap |-> "%s"]' % (l, p, w, wr)
        w1 = rng.randint(2, 8 * z)
        bits = [sh(2 * z, p, w, wr) for wr in ("bf3", "bf4") for w in {w1, 8 * z, max(1, 4 * z - 1)} for p in {0, 8 * z - w}]
        bits += [sh(3 * z, 8 * z - w1 + rng.randint(1, 7), w1, "bf4")]
        plain = [sh(z, 0, 8 * z, "plain")]
        others = [sh(z, 0, 8 * z, "td"), sh(3 * z, 8 * z, 8 * z, "member"), sh(3 * z, 16 * z, 8 * z, "elem")]
        jobs += [(z, dom[:3] + [rnd] if ctx.quick else dom + [rnd], 2 if ctx.quick else 3, plain, 0), (z, dom[1:4], 1, others + plain, 0xB6),
                 (z, dom[1:3] + [rnd], 1, bits + plain, rng.choice([0, 255, 0xB6]))]
        if not ctx.quick:
            allb = [sh(2 * z, p, w, "bf4") for w in range(1, 8 * z + 1) for p in {0, 1, 5, 8 * z - w}]
            jobs += [(z, [rnd, [255] * z], 1, allb[i:i + 24] + plain, 0xB6) for i in range(0, len(allb), 24)]
    def model(j):
        z, dom, mx, shapes, fill = j
        mod = "---- MODULE EnumRun ----\nEXTENDS EnumCells\nmcd(z) == {%s}\nmcs(z) == {%s}\n====\n" % (", ".join(map(tla, dom)), ", ".join(shapes))
        return ctx.tlc("EnumRun", dict(Sizes="{%d}" % z, Dom=None, Shapes=None, MaxEnums=mx, Fill=fill, Shapes2="{%s}" % ", ".join(dict.fromkeys([shapes[-1], shapes[0], shapes[len(shapes) // 2]]))), spec="Spec", invariants=["NameSound"],
                    properties=["Isolated", "RoundTrip", "CopyEqual"], action_constraint="Emit", extra_files={"EnumRun.tla": mod},
                    subst=dict(Dom="mcd", Shapes="mcs"), timeout=800, heap="3g", workers=2)
    for r in pmap(model, jobs):
        cmds = []
        for e in r["lines"]:
            l = e["l"]
            two = l["op"] in ("eeq", "ecp")
            cmds.append(" ".join([l["op"], enum_tokens(e["t"], e["a"])] + ([enum_tokens(e["t"], e["b"], "E2")] if two else []) + ([hx(l["arg"])] if l["arg"] else [])))
        res = pbatch(exe, cmds)
        for e, c, got in zip(r["lines"], cmds, res):
            ctx.cov["traces_validated_against_impl"] += 1
            if got.startswith("?"):
                continue
            l = e["l"]
            two = l["op"] in ("eeq", "ecp")
            head, _, tail = got.partition(" ")
            o = l["out"][0]
            iv = lambda b: int.from_bytes(bytes(b), "little", signed=True)
            k, v = o["k"], o["v"]
            if k == "v": ok = [head == "V" + hx(v)]
            elif k == "ok": ok = [head == "OK"]
            elif k == "n": ok = [head == "N%d" % v]
            elif k == "name": ok = [head in ["T" + x for x in v] or (not v and head == "T")]
            elif k == "dec": ok = [head == "T%d" % iv(v)]
            elif k == "num": ok = [head == "N%d" % iv(v) if -2**31 <= iv(v) < 2**31 else head == "E"]
            else: ok = [head == "L%d,-%s,-" % (len(v), "".join(",%s=%s" % (x["n"], hx(x["v"])) for x in v))]
            if got.startswith("!") or not ok[0] or tail != hx(e["x"]) + (" " + hx(e["y"]) if two else ""):
                ctx.violate("enumeration: '%s' gave '%s'; the specification says %s, memory %s" % (c, got, o, hx(e["x"])), command=c, got=got, expected=o, key=c)
        ctx.part("enumerations", calls=len(cmds))
        ctx.sample(dict(call=cmds[len(cmds) // 2], answer=res[len(cmds) // 2]))
    ctx.assumptions += ["numbers are those of metac_const_value_t (64-bit two's complement)", "an enumeration is signed iff it has a negative enumerator (gcc and clang rule)"]
