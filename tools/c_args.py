"""C17: printf-style formats; C16: captured calls."""
from vlib import *
from c_types import BASETXT
from c_deep import enc, INTV, FLV

LENS = {"": 0, "h": 1, "hh": 2, "l": 3, "ll": 4, "L": 5}
hx = lambda s: (s.encode() if isinstance(s, str) else s).hex() or "-"


def fmt_line(o):
    """expected answer of P for one format, positions counted from 0"""
    out = []
    for i, (ch, c) in enumerate(zip(o["s"], o["c"])):
        if ch == "%":
            if not c["ok"]:
                out.append("%d:0" % i)
            else:
                fl = "".join(x for x in "+-#0 " if x in c["f"]).replace(" ", "s")
                out.append("%d:1:%s:%d:%d:%d:%s:%d" % (i, fl, c["w"], c["p"], LENS[c["l"]], c["t"], c["e"] - 1))
    return out


def arg(ty, c, v, n, rng):
    """(argument token, expected answer)"""
    if ty == "str":
        if v == 0:
            return "i0", ("P", "char", "00" * 8)
        body = bytes(rng.choice(b"abcXYZ019 %\n\"\\") for _ in range(n))
        p = c["p"]
        if 0 <= p <= n and rng.random() < 0.5:
            return "u" + hx(body[:p]) if p else "u-", ("A", "char", p + 1, body[:p].hex() + "00")
        if p >= 0:
            return "s" + hx(body), ("A", "char", min(p, n) + 1, body[:p].hex() + "00")
        return "s" + hx(body), ("A", "char", n + 1, body.hex() + "00")
    if ty.endswith("*"):
        a = [0, 1, 0xfffffffffffffff0, 0x7f0011223344, rng.getrandbits(64)][v]
        return "i%x" % a, ("P", ty[:-1], a.to_bytes(8, "little").hex())
    if ty in ("double", "ldouble"):
        b, k = enc(dict(k="b", n=ty), v)
        if ty == "double":
            return "d%x" % int.from_bytes(b, "little"), ("B", ty, 8, b.hex())
        return "L" + b[:10].hex(), ("B", ty, 16, b[:10].hex())
    b, k = enc(dict(k="b", n=ty), v)
    if ty in ("char", "uchar") and rng.random() < 0.5:
        b = bytes([rng.getrandbits(8)])
    hi = rng.getrandbits(64) if rng.random() < 0.5 else (-1 if b[-1] & 0x80 else 0)
    x = (hi << (8 * k)) | int.from_bytes(b, "little")
    return "i%x" % (x & (2 ** 64 - 1)), ("B", ty, k, b.hex())


def same(got, exp):
    g = got.replace("~", " ").split("|")
    if g[0] != exp[0] or BASETXT.get(g[1], g[1]) != exp[1]:
        return False
    if exp[1] == "ldouble":
        return g[2] == "16" and g[3][:20] == exp[3]
    return g[2:] == [str(x) for x in exp[2:]]


def c17(ctx):
    exe = ctx.driver_reflect("printf", [os.path.join(DRV, "printf_drv.c")])
    alph = '{"%", "d", "s", "l", "h", "0", "5", ".", " "}' if ctx.quick else '{"%", "d", "s", "l", "h", "0", "5", ".", " ", "L", "*", "-"}'
    n = 5
    ex = ctx.tlc("Printf", dict(Alphabet=alph, MaxLen=n, SimLen=0), invariants=["Prefix", "Ordinary", "Emit"], timeout=850, workers=8)["lines"]
    sims = pmap(lambda k: ctx.tlc("Printf", dict(Alphabet='{"%"}', MaxLen=0, SimLen=12), init="SimInit", nxt="SimNext", invariants=["RoundTrip", "SimEmit"],
                                  simulate=150 if ctx.quick else 4000, depth=13, workers=1, seed=ctx.seed * 100 + k, heap="2g")["lines"], range(4 if ctx.quick else 8), 8)
    sims += pmap(lambda k: ctx.tlc("Printf", dict(Alphabet='{"%"}', MaxLen=0, SimLen=60), init="SimInit", nxt="SimNext", invariants=["RoundTrip", "SimEmit"],
                                   simulate=2 if ctx.quick else 60, depth=61, workers=1, seed=ctx.seed * 100 + 50 + k, heap="2g")["lines"], range(4), 8)
    # 1. the parser and the counter on every string
    res = pbatch(exe, ["P " + hx("".join(o["s"])) for o in ex])
    cnt = 0
    for o, got in zip(ex, res):
        if got.startswith("?"):
            continue
        ctx.cov["traces_validated_against_impl"] += 1
        w = got.split()
        if got.startswith("!") or w[1:] != fmt_line(o) or (o["wf"] and int(w[0]) != o["n"]):
            ctx.violate("format '%s': parsed as '%s', the specification says %s conversions, %s" % ("".join(o["s"]), got[:300], o["n"], fmt_line(o)), format="".join(o["s"]), got=got, key="".join(o["s"]))
        cnt += 1
    ctx.part("every short format", formats=cnt)
    # 2. capturing: every short format, refused ones included
    rng = random.Random(ctx.seed)
    cmds, exps = [], []
    for o in ex:
        if "%" not in o["s"]:
            continue
        cs = [c for c in o["c"]]
        its = [c for c in items(o)] if o["wf"] else []
        a = [arg(t, c, rng.randint(0, 4), rng.choice([0, 1, 7, 8, 9, 20]), rng) for t, c in zip(o["ty"], its)] if o["ok"] else [("i0", None)] * 3
        cmds.append("S %d %d %s %s" % (rng.choice([0, 2, 5, 6]), rng.choice([0, 7, 8]), hx("".join(o["s"])), " ".join(x[0] for x in a)))
        exps.append((o, [x[1] for x in a] if o["ok"] else None))
    for h in sims:
        for o in h:
            a = [arg(t, c, d["v"], d["n"], rng) for t, c, d in zip(o["ty"], o["c"], o["h"])]
            cmds.append("S %d %d %s %s" % (*rng.choice([(rng.randint(0, 6), rng.randint(0, 8)), (2, 0)]), hx("".join(o["s"])), " ".join(x[0] for x in a)))
            exps.append((o, [x[1] for x in a] if o["ok"] else None))
            if len(o["h"]) == 12:
                ctx.sample(dict(format="".join(o["s"]), types=o["ty"]))
    res = pbatch(exe, cmds)
    for c, (o, e), got in zip(cmds, exps, res):
        if got.startswith("?"):
            continue
        ctx.cov["traces_validated_against_impl"] += 1
        f = "".join(o["s"])
        w = got.split()
        bad = None
        if got.startswith("!"):
            bad = "implementation failed: " + got[:400]
        elif w[-2:] != ["0", "0"]:
            bad = "memory left behind or released wrongly: " + got[:300]
        elif e is None:
            if w[0] != "refused":
                bad = "captured as '%s', the specification says the format is refused" % got[:300]
        elif w[0] != "ok" or int(w[1]) != len(e):
            bad = "captured as '%s', the specification says %d arguments %s" % (got[:300], len(e), o["ty"])
        else:
            for i, (x, y) in enumerate(zip(w[2:-2], e)):
                if not same(x, y):
                    bad = "argument %d captured as %s, passed was %s" % (i, x[:200], y)
                    break
        if bad:
            ctx.violate("format '%s': %s" % (f[:100], bad), command=c, got=got, key=f)
    ctx.part("captured formats", formats=len(cmds))


def items(o):
    i, s = 0, o["s"]
    while i < len(s):
        if s[i] == "%":
            if i + 1 < len(s) and s[i + 1] == "%":
                i += 2
                continue
            yield o["c"][i]
            i = o["c"][i]["e"] - 1
        else:
            i += 1


def c12_printf(ctx, ok):
    exe = ctx.driver_reflect("printf", [os.path.join(DRV, "printf_drv.c")])
    rng = random.Random(ctx.seed + 17)
    h = ctx.tlc("Printf", dict(Alphabet='{"%"}', MaxLen=0, SimLen=6), init="SimInit", nxt="SimNext", invariants=["RoundTrip", "SimEmit"],
                simulate=60 if ctx.quick else 600, depth=7, workers=1, heap="2g")["lines"]
    cmds = []
    for o in h:
        if o["ok"]:
            a = [arg(t, c, d["v"], d["n"], rng)[0] for t, c, d in zip(o["ty"], o["c"], o["h"])]
            cmds.append("K 0 0 %s %s" % (hx("".join(o["s"])), " ".join(a)))
    import c_fault
    c_fault.judge(ctx, ok, "captured format", cmds, pbatch(exe, cmds))
