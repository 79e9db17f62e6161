"""C15 (annotation handlers): histories of spec/Handlers.tla replayed on real memory."""
from vlib import *
import struct
from ctypes_ import size, offsets, nm, final
import ctypes_
from c_scalar import BT
from c_deep import UP, UN, FX, MB, FLV, text_toks, spelled, Mismatch, Replay


def expand(env, t):
    k = t["k"]
    if k == "r": return dict(k="s", n=t["n"], pk=0, m=[dict(n=m["n"], of=expand(env, m["of"]), bits=m.get("bits")) for m in env[t["n"]]])
    if k in "su": return dict(t, m=[dict(m, of=expand(env, m["of"])) for m in t["m"]])
    if k in "at": return dict(t, of=expand(env, t["of"]))
    return t


def etdl(env, t):
    k = t["k"]
    if k == "r": return "*" + t["n"]
    if k == "p": return "p " + etdl(env, t["of"])
    if k == "a": return "a %d %s" % (t["c"], etdl(env, t["of"]))
    if k == "t": return "t %s %s" % (t["n"], etdl(env, t["of"]))
    if k in "su": return sdef(env, t, expand(env, t))
    return ctypes_.tdl(t)


def sdef(env, t, x):
    return "%s %s %d %d %s" % (x["k"], nm(x["n"]), size(x), len(x["m"]),
           " ".join(mdef(env, m, o) for m, o in zip(t["m"], offsets(x)[0])))


def mdef(env, m, o):
    b = m.get("bits")
    if not b: h = "m %s %d" % (nm(m["n"]), o)
    elif b["as"] == 4: h = "m4 %s 0 %d %d" % (m["n"], 8 * o + b["p"], b["w"])
    else: h = "m3 %s %d %d %d %d" % (m["n"], o, b["z"], 8 * b["z"] - b["p"] - b["w"], b["w"])
    return h + " " + etdl(env, m["of"])


def fields(env, rng, wide):
    """some of the siblings become bit-fields, each in a unit of its own"""
    for ms in env.values():
        for m in ms:
            f = final(m["of"])
            if m["n"] not in ("a", "b") or not (f["k"] == "e" or (f["k"] == "b" and f["n"] not in ("double", "float"))) or rng.random() < .7: continue
            z = f["z"] if f["k"] == "e" else BT[f["n"]][2]
            lo = 34 if wide and z == 8 else 32 if wide and z == 4 else 4
            w = 1 if f["k"] == "b" and f["n"] == "bool" else rng.randint(lo, 8 * z)
            m["bits"] = dict(z=z, w=w, p=rng.randint(0, 8 * z - w), **{"as": rng.choice([3, 4])})


def enc(t, x):
    if t["k"] == "e": return x.to_bytes(t["z"], "little")
    if t["n"] == "float": return struct.pack("<f", FLV[x])
    if t["n"] == "double": return struct.pack("<d", FLV[x])
    n = BT[t["n"]][2]
    return (x & ((1 << (8 * n)) - 1)).to_bytes(n, "little")


def leaf_text(n, x):
    if n == "float": return "%f" % struct.unpack("<f", struct.pack("<f", FLV[x]))[0]
    if n == "double": return "%f" % FLV[x]
    if n == "bool": return ["false", "true"][x]
    if n == "char": return {77: "'M'", 39: r"'\''"}.get(x, str(x))
    return str(x)


def ann(env, an):
    k = an["a"]
    if k == "count": return "count " + an["s"]
    if k == "zs": return "zs"
    if k == "perm": return "perm %d" % an["n"]
    if k == "sel": return "sel %s %d %s" % (an["s"], len(an["cs"]), " ".join("%d %d %s" % (c["val"], c["id"], c["nm"] or "-") for c in an["cs"]))
    if k == "cast": return "cast %s %s %d %s" % (an["c"] or "-", an["s"], len(an["cs"]), " ".join("%d p %s" % (c["val"], etdl(env, c["to"])) for c in an["cs"]))
    if k == "cont":
        x = expand(env, dict(k="r", n="N1"))
        return "cont %d p *N1" % offsets(x)[0][[m["n"] for m in x["m"]].index("lk")]


class HReplay:
    def __init__(self, drv, h0, rng, faults=False, wide=False):
        self.d, self.rng, self.log, self.faults, self.points = drv, rng, [], faults, 0
        self.env, self.root = h0["env"], h0["root"]
        fields(self.env, rng, wide)
        self.addr, self.sizes, self.top, self.hnd = {}, {}, {}, {}
        e = self.env
        self.cmd("X s ENV 1 %d %s" % (len(e), " ".join("m %s 0 @%s %s" % (n, n, sdef(e, dict(m=ms), expand(e, dict(k="r", n=n)))) for n, ms in e.items())))
        self.cmd("M")
        for n, ms in e.items():
            for i, m in enumerate(ms):
                if m["an"]["a"] != "none":
                    self.cmd("G %s %d %s" % (n, i, ann(e, m["an"])))
                if m["of"]["k"] == "u":
                    for j, u in enumerate(m["of"]["m"]):
                        if u["an"]["a"] != "none":
                            self.cmd("G %s %d.%d %s" % (n, i, j, ann(e, u["an"])))
        self.shared = {}
        r = rng.random()
        if not faults and r < 0.7:
            self.cmd("B 1" if r < .45 else "B 2")      # blocks next to each other or far apart
        for i, v in enumerate(h0["vals"], 1):
            a = self.alloc(self.rsize(v))
            self.top[i] = (v, a)
            self.place(v, self.root["t"], a)
            self.hnd[i] = self.value(a)
        self.call = Replay.call.__get__(self)

    cmd = Replay.cmd
    mode = Replay.mode
    parse = staticmethod(Replay.parse)

    def value(self, a):
        var = self.root["an"]["a"] != "none" or self.rng.random() < 0.4
        if self.root["t"]["k"] == "u":
            if not self.shared.get("u"):
                self.cmd("X s UHOLD 8 1 m x 0 @UU " + etdl(self.env, self.root["t"]))
                for j, u in enumerate(self.root["t"]["m"]):
                    if u["an"]["a"] != "none":
                        self.cmd("G UU %d %s" % (j, ann(self.env, u["an"])))
                self.shared["u"] = 1
            t = "*UU"
        else:
            t = etdl(self.env, self.root["t"])
        h = int(self.cmd("V %x %s%s" % (a, "x var1 " if var else "", t)))
        if h < 0:
            raise CheckError("no value")
        if self.root["an"]["a"] != "none":
            self.cmd("G %d - %s" % (h, ann(self.env, self.root["an"])))
        return h

    def alloc(self, n):
        return int(self.cmd("A %d" % max(1, n)), 16)

    def x(self, t):
        return final(expand(self.env, t))

    def extent(self, t, v):
        """bytes that an object of type t with value v takes (flexible arrays included)"""
        x = self.x(t)
        n = size(x)
        if x["k"] == "s" and v["v"] == "st" and x["m"] and final(x["m"][-1]["of"])["k"] == "a" and final(x["m"][-1]["of"])["c"] == -1:
            n = max(n, offsets(x)[0][-1] + len(v["m"][-1]["es"]) * size(final(x["m"][-1]["of"])["of"]))
        return n

    def bsize(self, v):
        z = size(self.x(v["t"]))
        return max([z * len(v["es"])] + [i * z + self.extent(v["t"], e) for i, e in enumerate(v["es"])])

    def rsize(self, v):
        return self.extent(self.root["t"], v)

    def place(self, v, t, a):
        w = []
        self.put(v, t, a, w)
        if w:
            self.cmd("W " + " ".join("%x %s" % (p, b.hex()) for p, b in w))

    def put(self, v, t, a, w):
        x = self.x(t)
        k = v["v"]
        if k == "num": w.append((a, enc(x, v["x"])))
        elif k == "nil": w.append((a, bytes(8)))
        elif k == "st":
            for m, o, c in zip(x["m"], offsets(x)[0], v["m"]):
                b = m.get("bits")
                if b:
                    mask = ((1 << b["w"]) - 1) << b["p"]
                    w.append((a + o, ((c["x"] << b["p"]) & mask | self.rng.getrandbits(8 * b["z"]) & ~mask).to_bytes(b["z"], "little")))
                else: self.put(c, m["of"], a + o, w)
        elif k == "uni":
            self.put(v["c"], x["m"][v["i"] - 1]["of"], a, w)
        elif k == "flex":
            z = size(x["of"])
            for i, e in enumerate(v["es"]):
                self.put(e, x["of"], a + i * z, w)
        elif k == "ptr":
            z = size(self.x(v["t"]))
            b = self.alloc(self.bsize(v))
            self.addr[v["id"]] = b
            w.append((a, struct.pack("<Q", b + v["o"])))
            for i, e in enumerate(v["es"]):
                self.put(e, v["t"], b + i * z, w)

    def check(self, v, t, a, plus, what, kind):
        """memory at a is value v; pointers lead to fresh blocks of plus (plus None: to the known blocks)"""
        x = self.x(t)
        k = v["v"]
        rd = lambda n: bytes.fromhex(self.cmd("R %x %d" % (a, n)))

        def bad(msg):
            raise Mismatch(kind, "%s: %s" % (what, msg))
        if k == "num":
            b = enc(x, v["x"])
            if rd(len(b)) != b:
                bad("%s instead of %s (%s)" % (rd(len(b)).hex(), b.hex(), x))
        elif k == "nil":
            if rd(8) != bytes(8):
                bad("pointer %s instead of NULL" % rd(8).hex())
        elif k == "same":
            if struct.unpack("<Q", rd(8))[0] != self.addr[v["id"]] + v["o"]:
                bad("pointer is not kept")
        elif k == "zero":
            if rd(size(x)).strip(b"\0"):
                bad("union is not cleared")
        elif k == "st":
            for m, o, c in zip(x["m"], offsets(x)[0], v["m"]):
                b = m.get("bits")
                if b:
                    got = int.from_bytes(bytes.fromhex(self.cmd("R %x %d" % (a + o, b["z"]))), "little") >> b["p"] & ((1 << b["w"]) - 1)
                    if got != c["x"] & ((1 << b["w"]) - 1): bad("bit-field %s holds %x instead of %d" % (m["n"], got, c["x"]))
                else: self.check(c, m["of"], a + o, plus, what + "." + m["n"], kind)
        elif k == "uni":
            self.check(v["c"], x["m"][v["i"] - 1]["of"], a, plus, what + ".<%d>" % v["i"], kind)
        elif k == "flex":
            z = size(x["of"])
            for i, e in enumerate(v["es"]):
                self.check(e, x["of"], a + i * z, plus, what + "[%d]" % i, kind)
        elif k == "ptr":
            p = struct.unpack("<Q", rd(8))[0] - v["o"]
            if plus is not None:
                if p not in plus:
                    bad("pointer %x does not lead to a new block (offset %d)" % (p, v["o"]))
                if plus[p][0] < self.bsize(v):
                    bad("new block has %d bytes, %d are shown" % (plus[p][0], self.bsize(v)))
                del plus[p]
                self.addr[v["id"]] = p
            elif p != self.addr[v["id"]]:
                bad("pointer was changed")
            z = size(self.x(v["t"]))
            for i, e in enumerate(v["es"]):
                self.check(e, v["t"], p + i * z, plus, what + "->[%d]" % i, kind)

    def verify(self, what, kind="fault"):
        for i, (v, a) in self.top.items():
            self.check(v, self.root["t"], a, None, "%s, value %d" % (what, i), kind)

    def expected(self, toks):
        out = []
        for w in toks:
            if w[0] == "#":
                n, x = w[1:].split(":")
                out += text_toks(leaf_text(n, int(x)))
            elif w[0] == "@":
                b, o = w[1:].split(":")
                out.append("0x%x" % (self.addr[b] + int(o)))
            elif w[0] == "$":
                out.append('"%s"' % "".join({"1": "\\n", "3": "M", "4": "\\'"}[c] for c in w[1:]))
            else:
                out.append(w)
        return out

    def step(self, s):
        op = s["op"]
        desc = json.dumps(self.root["t"])[:80]
        if op == "show":
            exp = self.expected(s["x"])

            def failed(o):
                t, _, r = o.rpartition("\x01")
                if r.strip() or (t != "-" and spelled(text_toks(t)) != spelled(exp)): return "answered"
            out = self.call("S %d %d" % (self.hnd[s["a"]], s["b"]), failed)
            txt, _, rest = out.rpartition("\x01")
            got = text_toks(txt)
            if rest:
                raise Mismatch("show", "showing an annotated value left memory behind: %s" % out[:300])
            if s["res"] == "none":
                if txt != "-":
                    raise Mismatch("show", "an annotated value that cannot be shown was shown as '%s'" % txt[:400])
            elif got != exp:
                k = next((i for i, (x, y) in enumerate(zip(got, exp)) if x != y), min(len(got), len(exp)))
                raise Mismatch("show", "annotated value shown as '%s'; token %d is %s, the specification says %s" % (txt[:400], k, got[k:k + 3], exp[k:k + 3]))
        elif op == "copy":
            v, _ = self.top[s["a"]]
            n = self.rsize(v)
            a = self.alloc(n)
            self.cmd("W %x %s" % (a, "55" * max(1, n)))
            h = self.value(a)
            fn = self.rng.choice([0, 0, 1])

            def failed(o):
                res, plus, minus, bad = self.parse(o)
                if res == "ok": return "done"
                if res != "fail" or plus or minus or bad: return "answered"
            out = self.call("C %d %d %s %d" % (self.hnd[s["a"]], h, self.mode(s["m"]), fn), failed)
            res, plus, minus, bad = self.parse(out)
            if res != s["res"] or minus or bad or (res == "fail" and plus):
                raise Mismatch("copy", "deep copy of an annotated value (%s) answered '%s', the specification says %s" % (self.mode(s["m"]), out, s["res"]))
            if res == "ok":
                left = dict(plus)
                self.check(s["x"], self.root["t"], a, left, "copy of annotated value", "copy")
                if left:
                    raise Mismatch("copy", "deep copy of an annotated value (%s) made %d blocks too many" % (self.mode(s["m"]), len(left)))
                self.top[s["b"]] = (s["x"], a)
                self.hnd[s["b"]] = h
        elif op == "eq":
            exp = {"error": "-1"}.get(s["res"], s["res"])
            out = self.call("Q %d %d %s" % (self.hnd[s["a"]], self.hnd[s["b"]], self.mode(s["m"])), lambda o: None if o in ("-1 -1", exp + " " + exp) else "answered")
            w = out.split(" ")
            if w[:2] != [exp, exp] or len(w) > 2:
                raise Mismatch("eq", "comparison of annotated values (%s) answered '%s', the specification says %s" % (self.mode(s["m"]), out, s["res"]))
        elif op == "free":
            fn = self.rng.choice([0, 0, 1])

            def failed(o):
                res, plus, minus, bad = self.parse(o)
                if res == "ok": return "done"
                if res != "fail" or plus or minus or bad: return "answered"
            out = self.call("F %d %s %d" % (self.hnd[s["a"]], self.mode(s["m"]).split(" ", 1)[1], fn), failed)
            res, plus, minus, bad = self.parse(out)
            exp = {self.addr[b] for b in s["x"]}
            if res != s["res"] or plus or bad or set(minus) != exp:
                raise Mismatch("free", "release of an annotated value (%s) answered '%s'; the specification says %s, %d blocks" % (self.mode(s["m"]), out, s["res"], len(exp)))
            if res == "ok":
                del self.top[s["a"]]
        if op != "end" and self.rng.random() < 0.3:
            self.verify("after " + op, op)


def c15(ctx):
    n = (220, 10, 8) if ctx.quick else (1500, 14, 24)
    handlers(ctx, n, ["show", "show", "copy", "eq", "eq", "eq", "free"], False)


WIDE = 1000000000


def unwide(o):
    """numbers the specification writes symbolically"""
    if isinstance(o, dict):
        return {k: unwide(v) for k, v in o.items()}
    if isinstance(o, list):
        return [unwide(v) for v in o]
    if isinstance(o, str):
        return re.sub(r"(?<!\d)1\d{9}(?!\d)", lambda m: str(unwide(int(m[0]))), o)
    if isinstance(o, int) and o >= WIDE:
        return 2 ** 32 - 1 - (o - WIDE - WIDE // 2) if o >= WIDE + WIDE // 2 else 2 ** 32 + o - WIDE
    return o


def handlers(ctx, n, mix, faults):
    exe = ctx.driver_plain("deep", ["deep_drv.c", "tdl.c", "alloc.c"])

    def one(k):
        r = ctx.tlc("Handlers", dict(SimDepth=n[1], Mix="<<%s>>" % ", ".join('"%s"' % m for m in mix)), init="Init", nxt="Next",
                    invariants=["CopyShows", "CopyFresh", "Symmetric", "FreeOwn", "SimEmit"], simulate=n[0], depth=n[1] + 1, workers=1, seed=ctx.seed * 1000 + k, timeout=850, heap="3g")
        rng = random.Random(ctx.seed * 7919 + k)
        drv = Driver(exe)
        out = []
        ops = collections.Counter()
        for h0 in r["lines"]:
            h = unwide(h0)
            rp = None
            try:
                rp = HReplay(drv, h[0], rng, faults, h != h0)
                for s in h[1:]:
                    rp.step(s)
                    ops[s["op"] + ":" + s["res"]] += 1
                drv.cmd("Z")
                ops["failed_allocations"] += rp.points
            except Mismatch as e:
                out.append((str(e), list(rp.log) if rp else []))
                drv.close()
            except Died as e:
                out.append(("implementation failed: %s; command '%s'" % (e, rp.log[-1][:200] if rp and rp.log else ""), list(rp.log) if rp else []))
            if len(out) > 30:
                break
        drv.close()
        if r["lines"] and k == 0:
            with LOCK:
                ctx.sample(dict(env=h[0]["env"], root=h[0]["root"], steps=[dict(op=s["op"], res=s["res"], mode=s["m"]) for s in h[1:]]))
        return len(r["lines"]), ops, out
    for cnt, ops, out in pmap(one, range(n[2]), 8):
        ctx.cov["traces_validated_against_impl"] += cnt
        ctx.part("annotated", behaviours=cnt, **{k.replace(":", "_"): v for k, v in ops.items()})
        for w, log in out:
            ctx.violate(w, commands=log, key=w)


def c12_handlers(ctx):
    handlers(ctx, (12, 8, 8) if ctx.quick else (300, 10, 16), ["show", "copy", "eq", "free"], True)
