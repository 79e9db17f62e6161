"""C16 (captured calls): histories of spec/Calls.tla compiled into a C program and replayed."""
from vlib import *
import cgen
from ctypes_ import size, offsets
from c_deep import FLV, text_toks, spelled, Mismatch
import c_deep
from c_handlers import expand
from c_types import toks

SETS = "ab"


def wide(z, i):
    """an enumerator that needs all the bytes of its type; negative in every other program"""
    return {1: 200, 2: 40000, 4: 3000000000, 8: 0x123456789a}[z] if i % 2 == 0 else {1: -100, 2: -30000, 4: -2000000000, 8: -0x123456789a}[z]


def enc(t, x):
    """bytes of number x of a leaf type, None where a byte means nothing"""
    if t["k"] == "b" and x >= 100:
        n = size(t)
        return list((x - 100).to_bytes(n, "little"))
    if t["k"] == "b" and t["n"] in ("cfloat", "cldouble"):
        p = dict(k="b", n=t["n"][1:])
        return enc(p, x) + enc(p, 4 - x)
    b, n = c_deep.enc(t, x)
    return list(b[:n]) + [None] * (len(b) - n)


def leaf_text(n, x):
    if n in c_deep.BT and x >= 100: return {0: "0", 10: "10"}.get(x - 100, str(x - 100)) if n != "bool" else str(bool(x - 100)).lower()
    if n in ("cfloat", "cldouble"):
        p = n[1:]
        b = leaf_text(p, 4 - x)
        return "%s %s I * %s" % (leaf_text(p, x), "-" if b[0] == "-" else "+", b.lstrip("-"))
    return c_deep.leaf_text(n, x)


def strip(t):
    while t["k"] == "q": t = t["of"]
    return t


def rawaddr(x):
    return 0x10000000 + 0x1010 * x


class Plan:
    """One history: the memory the caller has, and the C source of the captures."""
    def __init__(self, i, h):
        self.i, self.h = i, h
        h0 = h[0]
        self.env, self.ps, self.kind = h0["env"], h0["sig"]["ps"], h0["sig"]["kind"]
        self.sets, self.mem = h0["sets"], h0["mem"] or {}
        self.convs = h0["convs"]
        self.rn = lambda n: "%s_%d" % (n, i)
        self.idx = {}          # variable or block -> number
        for k in (0, 1):
            for j, p in enumerate(self.ps):
                if p["of"]["k"] not in "xl": self.num(("v", k, j))
                else:
                    for q, e in enumerate(self.sets[k][j]["es"]): self.num(("w", k, j, q))
        for b in self.mem: self.num(b)

    def num(self, k): return self.idx.setdefault(k, len(self.idx))

    def fmt(self, b):
        s = "v"
        for n, c in enumerate(b["cs"]):
            s += ["=", "", " %%", "x: "][(n + c) % 4] + self.convs[c - 1]["f"]
        return (s + ("%q!" if b["bad"] else ["", "%%", " end"][len(b["cs"]) % 3])).encode()

    def source(self):
        i, rn, e = self.i, self.rn, self.env
        o = ["struct %s;" % rn("Decl")]
        for z in (1, 2, 4, 8):
            n = "E%d" % z
            o.append(cgen.ebody(dict(k="e", n=n, z=z, v=[dict(n="e0" + n, v=0), dict(n="e1" + n, v=1), dict(n="e7" + n, v=wide(z, i))]), rn) + ";")
        for n in ("S1", "S2"): o.append(cgen.body(dict(k="s", n=n, pk=0, m=e[n]), rn) + ";")
        o.append("union %s { int ua; char ub[6]; };" % rn("U1"))
        o.append("typedef unsigned int %s; typedef struct %s *%s;" % (rn("td1"), rn("S1"), rn("td2")))
        ps = cgen.params(self.ps, rn)
        if self.kind == "g": o.append("int %s(%s) { return 0; }\nMETAC_GSYM_LINK(%s);\nstatic metac_entry_t *ent_%d(void) { return METAC_GSYM_LINK_ENTRY(%s); }" % (rn("fn"), ps, rn("fn"), i, rn("fn")))
        else: o.append("typedef int %s(%s);\nstatic metac_entry_t *ent_%d(void) { WITH_METAC_DECLLOC(d, %s *p = 0); return metac_entry_pointer_entry(METAC_ENTRY_FROM_DECLLOC(d, p)); }" % (rn("fn_t"), ps, i, rn("fn_t")))
        for k in (0, 1):
            call, va, names = [], None, []
            for j, p in enumerate(self.ps):
                if p["of"]["k"] == "x" or p["of"]["k"] == "l":
                    xs = []
                    for q, a in enumerate(self.sets[k][j]["es"]):
                        t = dict(k="p", of=dict(k="b", n="char")) if a["t"]["k"] == "str" else a["t"]
                        xs.append("*(%s)B[%d]" % (cgen.decl(dict(k="p", of=t), "", rn), self.num(("w", k, j, q))))
                    if p["of"]["k"] == "x": call += xs
                    else:
                        va = xs
                        call.append("l")
                else:
                    call.append("*(%s)B[%d]" % (cgen.decl(dict(k="p", of=strip(p["of"])), "", rn), self.num(("v", k, j))))
            w = ("metac_value_parameter_wrap(%s)" if k == 0 else "vwrap(%s)") % ", ".join(["v", "m"] + call)
            if va is not None:
                o.append("static metac_value_t *capl_%d_%d(metac_value_t *v, metac_tag_map_t *m, ...) { va_list l; va_start(l, m); v = %s; va_end(l); return v; }" % (i, k, w))
                w = "capl_%d_%d(%s)" % (i, k, ", ".join(["v", "m"] + va))
            o.append("static metac_value_t *cap_%d_%d(metac_value_t *v, metac_tag_map_t *m) { return %s; }" % (i, k, w))
        o.append("static metac_value_t *cap_%d(int k, metac_value_t *v, metac_tag_map_t *m) { return k ? cap_%d_1(v, m) : cap_%d_0(v, m); }" % (i, i, i))
        o.append("static void tags_%d(metac_tag_map_t *m, metac_entry_t *e) {" % i)
        for j, p in enumerate(self.ps):
            h = {"none": "", "zs": "METAC_ZERO_ENDED_STRING()", "count": "METAC_COUNT_BY(%s)" % p["s"], "va": "METAC_FORMAT_BASED_VA_ARG()"}[p["an"]]
            if h: o.append("  tag(m, e, %d, (metac_entry_tag_t){ %s });" % (j, h))
        o.append("}")
        return "\n".join(o)


def program(plans):
    return """#include "calls_drv.h"
METAC_MODULE(drv);
#include <stdarg.h>
static metac_value_t *vwrap(metac_value_t *v, metac_tag_map_t *m, ...) { va_list l; va_start(l, m); v = metac_value_parameter_vwrap(v, m, l); va_end(l); return v; }
static void tag(metac_tag_map_t *m, metac_entry_t *e, int i, metac_entry_tag_t t) { metac_tag_map_set_tag(m, 0, 0, metac_entry_by_paremeter_id(e, i), METAC_TEO_entry, &t); }
%s
static struct hist hs[] = { %s };
int main(void) { return run(hs); }
""" % ("\n".join(p.source() for p in plans), ", ".join("{ ent_%d, cap_%d, tags_%d }" % (p.i, p.i, p.i) for p in plans))


class Replay:
    def __init__(self, drv, p, faults=False, sparse=False):
        self.drv, self.p, self.faults, self.sparse = drv, p, faults, sparse
        self.log, self.points = [], 0
        self.cmd("H %d" % p.i)
        self.addr, self.bt = {}, {}
        self.mem = {b: dict(m) for b, m in p.mem.items()}
        self.sets = [list(s) for s in p.sets]
        for b, m in self.mem.items():
            m["z"] = len(p.fmt(m)) + 1 if "cs" in m else size(self.x(m["t"])) * len(m["es"])
            self.addr[b] = int(self.cmd("N %d %d" % (p.idx[b], m["z"])), 16)
        for b, m in self.mem.items():
            if "cs" in m: self.cmd("W %d 0 %s00" % (p.idx[b], p.fmt(m).hex()))
            else:
                for i in range(len(m["es"])): self.wmem(b, i)
        for k in (0, 1):
            for j, q in enumerate(p.ps):
                v = self.sets[k][j]
                if q["of"]["k"] in "xl":
                    for n, e in enumerate(v["es"]):
                        t = dict(k="p", of=dict(k="v")) if e["t"]["k"] == "str" else e["t"]
                        self.wvar(("w", k, j, n), t, e["v"])
                else: self.wvar(("v", k, j), q["of"], v)

    def x(self, t): return expand(self.p.env, strip(t)) if t["k"] != "q" else self.x(t["of"])

    def cmd(self, l):
        self.log.append(l)
        return self.drv.cmd(l)

    def call(self, l, failed):
        """l, and with faults every allocation denied first; failed() judges the answer of a denied run"""
        if self.faults:
            for frm in (0, 1):
                k = 1
                while True:
                    out = self.cmd("K %d %d %s" % (k, frm, l))
                    if not out.endswith(" hit"): return out
                    self.points += 1
                    w = failed(out[:-4])
                    if w: raise Mismatch("fault", "%s, allocation %d%s denied: %s ('%s')" % (l, k, " and later" if frm else "", w, out[:200]))
                    k += 1 if k < 12 or not self.sparse else 5
                    if k > 400: break
        return self.cmd(l)

    def val(self, t, v):
        """bytes of a value of type t: list of byte or None"""
        t = self.x(t)
        while t["k"] in "tq": t = t["of"]
        k = v["v"]
        if k == "num" and t["k"] == "e" and v["x"] == 2: return list((wide(t["z"], self.p.i) % 256 ** t["z"]).to_bytes(t["z"], "little"))
        if k == "num": return enc(t, v["x"])
        if k == "nil": return [0] * 8
        if k == "raw": return list(rawaddr(v["x"]).to_bytes(8, "little"))
        if k in ("ptr", "fmt"): return list(self.addr[v["id"]].to_bytes(8, "little"))
        if k == "un": return list(c_deep.enc(t, v["x"])[0])
        if k == "arr": return sum((self.val(t["of"], e) for e in v["es"]), [])
        out = [None] * size(t)
        for m, o, w in zip(t["m"], offsets(t)[0], v["m"]):
            b = self.val(m["of"], w)
            out[o:o + len(b)] = b
        return out

    hx = staticmethod(lambda b: "".join("%02x" % (0xbd if x is None else x) for x in b))

    def wvar(self, key, t, v):
        b = self.val(t, v)
        if key not in self.addr: self.addr[key] = self.cmd("N %d %d" % (self.p.idx[key], len(b)))
        self.cmd("W %d 0 %s" % (self.p.idx[key], self.hx(b)))

    def wmem(self, b, i):
        m = self.mem[b]
        if not m["es"]: return
        self.cmd("W %d %d %s" % (self.p.idx[b], i * size(self.x(m["t"])), self.hx(self.val(m["t"], m["es"][i]))))

    @staticmethod
    def differ(got, exp):
        g = bytes.fromhex(got)
        if len(g) != len(exp): return "%d bytes instead of %d" % (len(g), len(exp))
        for i, (a, b) in enumerate(zip(g, exp)):
            if b is not None and a != b: return "byte %d is %02x instead of %02x (%s, expected %s)" % (i, a, b, got[:80], Replay.hx(exp)[:80])

    def unsuffix(self, ws):
        s = "_%d" % self.p.i
        return [w[:-len(s)] if w.endswith(s) and w[0] not in "\"'" else w for w in ws]

    def listing(self, s, args, kind, what):
        out = self.call("L %d" % s, lambda o: None)
        it = iter(out.split("\x01")[:-1])

        def line(x, nm, ty, exp, w):
            f = x.split("\2")
            if len(f) != 3: raise Mismatch(kind, "%s: %s is listed as '%s'" % (what, w, x[:200]))
            if nm is not None and f[0] != nm: raise Mismatch(kind, "%s: %s is named '%s'" % (what, w, f[0]))
            if self.unsuffix(toks(f[1].replace("%s", ""))) != ty: raise Mismatch(kind, "%s: %s has type '%s', declared is '%s'" % (what, w, f[1], " ".join(ty)))
            d = self.differ(f[2], exp)
            if d: raise Mismatch(kind, "%s: %s of type '%s': %s" % (what, w, " ".join(ty), d))
        nx = lambda: next(it, "(end)")
        for j, (p, v) in enumerate(zip(self.p.ps, args)):
            if p["of"]["k"] in "xl":
                x = nx()
                if x.split("\2")[1:] != ["["]: raise Mismatch(kind, "%s: parameter %d is listed as '%s', passed was a list" % (what, j, x[:200]))
                for q, e in enumerate(v["es"]):
                    line(nx(), None, vatype(e["t"]), self.val(e["t"], e["v"]), "argument %d of the list" % q)
                x = nx()
                if x != "]": raise Mismatch(kind, "%s: the list has more arguments: '%s'" % (what, x[:200]))
            else:
                line(nx(), p["n"] if self.p.kind == "g" else "-", self.p.h[0]["types"][j], self.val(p["of"], v), "parameter %d" % j)
        x = nx()
        if x != "(end)": raise Mismatch(kind, "%s: more parameters than declared: '%s'" % (what, x[:200]))

    def expected(self, ws):
        out = []
        for w in ws:
            if w[0] == "#" and len(w) > 1:
                n, x = w[1:].split(":")
                out += text_toks(leaf_text(n, int(x)))
            elif w[0] == "@" and len(w) > 1:
                out.append("0x%x" % (self.addr[w[1:]] if w[1:] in self.addr else rawaddr(int(w[2:]))))
            elif w[0] == "$":
                out.append('"%s"' % "".join({"1": "\\n", "3": "M", "4": "\\'"}[c] for c in w[1:]))
            elif w[:2] == "%%":
                c = next(p for p in self.p.ps if p["n"] == "fmt")["of"]["of"]["k"] == "q"
                out += text_toks("(%schar []){'v',}" % ("const " if c else ""))
            elif w[0] == "%":
                b = w[1:]
                while "of" in self.mem[b]: b = self.mem[b]["of"]
                out.append('"%s"' % self.p.fmt(self.mem[b]).decode())
            else: out.append(w)
        return out

    def follow(self, t, v, got, fresh, kind):
        """the copy's memory holds v: binds block names to addresses"""
        t = self.x(t)
        while t["k"] in "tq": t = self.x(t["of"])
        k = v["v"]
        if k == "st":
            for m, o, w in zip(t["m"], offsets(t)[0], v["m"]): self.follow(m["of"], w, got[o:], fresh, kind)
        elif k == "arr":
            n = size(self.x(t["of"]))
            for i, w in enumerate(v["es"]): self.follow(t["of"], w, got[i * n:], fresh, kind)
        elif k in ("ptr", "fmt"):
            a = int.from_bytes(got[:8], "little")
            if a not in fresh: raise Mismatch(kind, "the copy's pointer %x does not lead to a block of its own" % a)
            n = fresh.pop(a)
            b = self.mem[v["id"]]
            self.addr[v["id"]] = a
            if k == "fmt":
                r = v["id"]
                while "of" in self.mem[r]: r = self.mem[r]["of"]
                e = list((self.p.fmt(self.mem[r]) + b"\0")[:None if b.get("whole", True) else 1])
                d = self.differ(self.cmd("R %x %d" % (a, len(e))), e) if n >= len(e) else "too short"
                if d: raise Mismatch(kind, "the copy of a format: " + d)
                return
            z = size(self.x(b["t"]))
            if n < z * len(b["es"]): raise Mismatch(kind, "a copied block has %d bytes, %d elements of %d bytes are needed" % (n, len(b["es"]), z))
            m = bytes.fromhex(self.cmd("R %x %d" % (a, z * len(b["es"])))) if b["es"] else b""
            for i, w in enumerate(b["es"]): self.follow(b["t"], w, m[i * z:], fresh, kind)
            e = sum((self.val(b["t"], w) for w in b["es"]), [])
            d = self.differ(m.hex(), e)
            if d: raise Mismatch(kind, "a copied block: " + d)

    def step(self, s):
        op, p = s["op"], self.p
        a, b, map_ = s["a"], s["b"], int(s["map"])
        if op == "cap":
            out = self.call("C %d %d" % (a - 1, map_), lambda o: None if o == "refused 0 0" else "answered")
            if s["res"] == "refused":
                if out != "refused 0 0": raise Mismatch("cap", "capture answered '%s', the specification says it is refused leaving nothing" % out)
            elif out != "ok": raise Mismatch("cap", "capture answered '%s'" % out)
            else: self.listing(b - 1, s["x"], "cap", "just captured")
        elif op == "list":
            self.listing(a - 1, s["x"], "cap", "listing")
        elif op == "show":
            exp = self.expected(s["x"])

            def failed(o):
                t, _, r = o.rpartition("\x01")
                if r.strip() or (t != "-" and spelled(self.unsuffix(text_toks(t))) != spelled(exp)): return "answered"
            out = self.call("S %d %d %d" % (a - 1, b, map_), failed)
            txt, _, rest = out.rpartition("\x01")
            got = self.unsuffix(text_toks(txt))
            if rest: raise Mismatch("show", "showing a call left memory behind: %s" % out[:300])
            if s["res"] == "none":
                if txt != "-": raise Mismatch("show", "a call that cannot be shown was shown as '%s'" % txt[:400])
            elif got != exp:
                k = next((i for i, (x, y) in enumerate(zip(got, exp)) if x != y), min(len(got), len(exp)))
                raise Mismatch("show", "shown as '%s'; token %d is %s, the specification says %s (%s)" % (txt[:400], k, got[k:k + 3], exp[k:k + 3], "deep" if b else "shallow"))
        elif op == "copy":
            out = self.call("Y %d %s %d" % (a - 1, s["m"][0], map_), lambda o: None if o == "fail 0 0 0" else "answered")
            w = out.split()
            if s["res"] == "fail":
                if out != "fail 0 0 0": raise Mismatch("copy", "copy answered '%s', the specification says it is refused leaving nothing" % out[:200])
                return
            if w[0] != "ok": raise Mismatch("copy", "copy answered '%s'" % out[:200])
            fresh = {int(x.split(":")[0], 16): int(x.split(":")[1]) for x in w[1:]}
            n = len(fresh)
            args, bs = s["x"]["args"], s["x"]["bs"] or {}
            self.mem.update({k: dict(v) for k, v in bs.items()})
            raw = self.cmd("L %d" % (b - 1)).split("\x01")[:-1]
            it = iter(x.split("\2")[2] for x in raw if x.count("\2") == 2)
            for q, v in zip(p.ps, args):
                for t, w in ([(e["t"], e["v"]) for e in v["es"]] if v["v"] == "va" else [(q["of"], v)]):
                    self.follow(t, w, bytes.fromhex(next(it, "")), fresh, "copy")
            if fresh: raise Mismatch("copy", "the copy allocated %d blocks, %d of them are not part of it" % (n, len(fresh)))
            self.listing(b - 1, args, "copy", "just copied")
            self.listing(a - 1, self.args[a], "copy", "the original after copying")
        elif op == "onto":
            out = self.cmd("O %d %d" % (a - 1, b - 1))
            if out != "fail 0 0 0": raise Mismatch("copy", "copy into a captured call answered '%s'" % out[:200])
            self.listing(b - 1, s["x"], "copy", "after a refused copy into it")
        elif op == "eq":
            exp = {"error": "-1"}.get(s["res"], s["res"])
            out = self.call("Q %d %d %s %d" % (a - 1, b - 1, s["m"][0], map_), lambda o: None if o in ("-1 -1", exp + " " + exp) else "answered")
            if out != exp + " " + exp: raise Mismatch("eq", "comparison answered '%s', the specification says %s" % (out, s["res"]))
        elif op == "drop":
            out = self.cmd("D %d %d" % (a - 1, 1 if self.own.get(a) else 0))
            if out != "ok %d 0" % s["x"]: raise Mismatch("drop", "release answered '%s', the specification says %d blocks" % (out, s["x"]))
        elif op == "pokevar":
            self.wvar(("v", a - 1, b - 1), p.ps[b - 1]["of"], s["x"])
        elif op == "pokemem":
            m = self.mem[s["res"]]
            m["es"] = list(m["es"])
            m["es"][b - 1] = s["x"]
            self.wmem(s["res"], b - 1)

    def run(self):
        self.args, self.own = {}, {}
        ops = collections.Counter()
        for s in self.p.h[1:]:
            if s["op"] in ("cap", "copy") and s["res"] == "ok":
                self.args[s["b"]] = s["x"] if s["op"] == "cap" else s["x"]["args"]
                self.own[s["b"]] = s["op"] == "copy"
            self.step(s)
            ops[s["op"] + ":" + (s["res"] if s["op"] not in ("pokemem",) else "")] += 1
        for a, o in self.own.items():
            if o and not any(s["op"] == "drop" and s["a"] == a for s in self.p.h[1:]):
                if self.cmd("D %d 1" % (a - 1)).split()[0] != "ok": raise Mismatch("drop", "release of a copy failed")
        out = self.cmd("Z")
        if out != "0 0": raise Mismatch("drop", "releasing everything left '%s' (blocks, wrong releases)" % out)
        return ops


def vatype(t):
    if t["k"] == "b": return [t["n"]]
    if t["k"] == "a": return [t["of"]["n"], "[", str(t["c"]), "]"]
    return [t["of"]["n"] if t["of"]["k"] == "b" else "void", "*"]


def calls(ctx, mix, n, faults=False, kinds=None, only="", base=0):
    """n: (histories per program, steps, programs)"""
    def one(k):
        r = ctx.tlc("Calls", dict(SimDepth=n[1], Mix="<<%s>>" % ", ".join('"%s"' % m for m in mix), Only='"%s"' % only), invariants=["AsPassed", "CopyEqual", "CopyFresh", "Symmetric", "Reflexive", "SimEmit"],
                    simulate=n[0], depth=n[1] + 1, workers=1, seed=ctx.seed * 1000 + base + k, timeout=800, heap="3g")
        plans = [Plan(i, h) for i, h in enumerate(r["lines"])]
        d = ctx.mk("calls%s%d" % (only, k))
        f = os.path.join(d, "calls%d.c" % k)
        open(f, "w").write(program(plans))
        exe = ctx.driver_reflect("calls%s%d" % (only, k), [f], flags=["-I" + DRV, "-w"])
        drv, out, ops = Driver(exe), [], collections.Counter()
        for p in plans:
            rp = None
            try:
                rp = Replay(drv, p, faults, ctx.quick)
                ops.update(rp.run())
                ops["failed_allocations"] += rp.points
            except Mismatch as e:
                if not faults or e.kind == "fault": out.append((str(e), sigtext(p), list(rp.log) if rp else []))
                drv.close()
            except Died as e:
                l = rp.log[-1] if rp and rp.log else "?"
                if not faults or l[0] == "K": out.append(("implementation failed: %s; command '%s'" % (e, l[:200]), sigtext(p), list(rp.log) if rp else []))
                if len(out) > 30: break
        drv.close()
        if k == 0 and plans:
            with LOCK: ctx.sample(dict(signature=sigtext(plans[0]), steps=[dict(op=s["op"], res=s["res"]) for s in plans[0].h[1:]]))
        return len(plans), ops, out
    ctx.full_lib()
    for cnt, ops, out in pmap(one, range(n[2]), 8):
        ctx.cov["traces_validated_against_impl"] += cnt
        ctx.part("calls", behaviours=cnt, **{k.replace(":", "_"): v for k, v in ops.items()})
        for w, sg, log in out: ctx.violate("%s: %s" % (sg, w), commands=log, key=w)
    ctx.assumptions += ["System V x86-64 calling convention; structures passed by value are classified INTEGER or MEMORY (see known findings)"]


def sigtext(p):
    return "int %s(%s)" % ("fn" if p.kind == "g" else "(*)", cgen.params(p.ps))


MIX = ["cap", "show", "list", "copy", "eq", "pokemem", "pokevar", "drop", "onto", "show", "copy"]


SMALL = {"double": ["double"], "float, float": ["float", "float"], "int, double": ["int", "double"], "long double": ["ldouble"], "double, double": ["double", "double"], "float": ["float"]}


def byvalue(ctx):
    """structures of up to 16 bytes with floating point members, passed by value: what the calling convention does with them is a known finding"""
    b = lambda n: dict(k="b", n=n)
    plans = []
    for i, (nm, ms) in enumerate(SMALL.items()):
        env = dict(S1=[dict(n="m%d" % j, of=b(t)) for j, t in enumerate(ms)], S2=[dict(n="a", of=b("int"))])
        par = lambda n, t: dict(n=n, of=t, an="none", s="")
        args = [dict(v="st", m=[dict(v="num", x=3) for _ in ms]), dict(v="num", x=3)]
        h0 = dict(env=env, sig=dict(kind="g", ps=[par("p1", dict(k="r", n="S1")), par("p2", b("int"))]), sets=[args, args], mem={}, convs=[], types=[["struct", "S1"], ["int"]])
        plans.append((nm, Plan(i, [h0, dict(op="cap", a=1, b=1, m="", map=True, res="ok", x=args)])))
    d = ctx.mk("byvalue")
    f = os.path.join(d, "byvalue.c")
    open(f, "w").write(program([p for _, p in plans]))
    drv = Driver(ctx.driver_reflect("byvalue", [f], flags=["-I" + DRV, "-w"]))
    for nm, p in plans:
        try:
            Replay(drv, p).run()
        except (Mismatch, Died) as e:
            ctx.violate("structure { %s } passed by value: %s" % (nm, e), key="by value {%s}" % nm)
            drv.close()
        ctx.cov["traces_validated_against_impl"] += 1
    drv.close()


STYPES = {0: 4, 1: 1, 2: 24, 3: 8, 4: 24, 5: 1, 6: 9, 7: 70}  # from 5 on: strings


def sbytes(e, d):
    n = STYPES[e]
    return "".join("%02x" % ((d * 37 + e * 11 + i * 5 + 1) % 256) for i in range(n))


def stext(s):
    return "(" + "".join("%d:%s " % (min(5, x["e"]), sbytes(x["e"], x["d"])) if x["k"] == "b" else stext(x["s"]) for x in s) + ") "


def storages(ctx, faults=False):
    """histories of argument storages (Store.tla)"""
    exe = ctx.driver_reflect("store", [os.path.join(DRV, "store_drv.c")], plain=("alloc.c", "tdl.c"))

    def model(j):
        if j[0] == "all":
            return ctx.tlc("Store", dict(Types="{0, 6}", Data="{1}", MaxItems=3, MaxNest=1, Steps=j[1], Rnd="FALSE"), spec="Spec", invariants=["CopyEqual", "Emit"], properties=["Apart"], workers=1, timeout=600, heap="3g")
        return ctx.tlc("Store", dict(Types="0..7", Data="0..3", MaxItems=12, MaxNest=3, Steps=j[1], Rnd="TRUE"), invariants=["CopyEqual", "Emit"], workers=1, simulate=j[2], depth=j[1] + 1,
                       seed=ctx.seed * 100 + 70 + j[3], timeout=600, heap="2g")
    jobs = [("rnd", 30, 60 if faults else 150, k) for k in range(2 if faults else 4)] if ctx.quick else [("all", 5)] + [("rnd", 40, 400, k) for k in range(6)]
    if ctx.quick and not faults:
        jobs.append(("all", 4))
    for r in pmap(model, jobs, 8):
        at = lambda o, r0, p: ".".join([str(r0)] + [str(i - 1) for i in p])
        cmds, exp = [], []
        for h in r["lines"]:
            c, x = [], []
            for o in h:
                w = at(o, o["r"] - 1, o["p"])
                c.append("%s %s" % (o["o"], w) + {"B": " %d %s" % (o["e"], sbytes(o["e"], o["d"])), "S": " %d %s" % (o["i"] - 1, sbytes(o["e"], o["d"])), "Y": " " + at(o, 2 - o["r"], o["q"])}.get(o["o"], ""))
                x.append(stext(o["st"][0]) + stext(o["st"][1]))
            cmds.append(("K " if faults else "") + " ".join(c))
            exp.append("|".join(x) + "|0 0")
        for c, x, got in zip(cmds, exp, pbatch(exe, cmds, n=8)):
            ctx.cov["traces_validated_against_impl"] += 1
            if got != x:
                g, e = got.split("|"), x.split("|")
                i = next((i for i in range(min(len(g), len(e))) if g[i] != e[i]), -1)
                ctx.violate("argument storages: after operation %d of '%s' they hold '%s', the specification says '%s'" % (i + 1, c[:400], g[i][:300], e[i][:300]), command=c, got=got, expected=x, key=c[:200])
        ctx.part("storages", histories=len(cmds))


def c16(ctx):
    storages(ctx)
    calls(ctx, MIX, (60, 14, 8) if ctx.quick else (150, 18, 40))
    calls(ctx, ["cap", "cap", "show", "copy", "eq"], (40, 7, 8) if ctx.quick else (150, 9, 24), only="flat", base=500)
    byvalue(ctx)


def c12_calls(ctx):
    storages(ctx, True)
    calls(ctx, ["cap", "show", "list", "copy", "eq", "drop"], (8, 9, 4) if ctx.quick else (60, 10, 16), faults=True)
