"""C09-C11 (deep copy, comparison, release): histories of spec/Deep.tla replayed on real memory."""
from vlib import *
import struct
from ctypes_ import size, offsets, nm
import ctypes_
from c_scalar import BT
import c_scalar
from c_types import BASETXT, BASEWORDS, KEYW

UP = {"fail": 0, "ignore": 1, "value": 2, "byte": 3}
UN = {"fail": 0, "ignore": 1, "mem": 2}
FX = {"fail": 0, "ignore": 1}
MB = {"dag": 0, "tree": 1}


def expand(env, t):
    k = t["k"]
    if k == "r": return expand(env, env[t["n"]])
    if k == "s": return dict(t, m=[dict(m, of=expand(env, m["of"])) for m in t["m"]])
    if k in "at": return dict(t, of=expand(env, t["of"]))
    return t


def etdl(env, t):
    """driver tokens; structures of the environment are referred to by label"""
    k = t["k"]
    if k == "r" or (k == "s" and t["n"] in env): return "*" + t["n"]
    if k == "p": return "p " + etdl(env, t["of"])
    if k == "a": return "a %d %s" % (t["c"], etdl(env, t["of"]))
    if k == "t": return "t %s %s" % (t["n"], etdl(env, t["of"]))
    if k in "su": return sdef(env, t)
    if t.get("n") in ("Bits3", "Bits4"): return bdef(t["n"])
    return ctypes_.tdl(t)


ENUM = "e En 4 3 e0 0 e1 1 e7 7"
FIELDS = [("b1", "int", 0, 3), ("b2", "uint", 3, 7), ("b3", "long", 10, 33), ("b4", "bool", 48, 1), ("b5", None, 49, 4), ("b6", "uint", 56, 8)]     # name, type, place, width
PACKS = [(0, 0, 0, 0, 0, 0), (-1, 127, -1, 1, 7, 255), (3, 64, 4294967295, 1, 3, 128), (-4, 1, -4294967296, 0, 1, 10),
         (-1, 127, -1, 1, 7, 254), (-1, 127, -2, 1, 7, 255), (-1, 127, -1, 0, 7, 255)]
BITMASK = sum(((1 << w) - 1) << o for _, _, o, w in FIELDS)


def bdef(n):
    """a structure of bit-fields, described the way of DWARF 4 or of DWARF 3"""
    o = []
    for f, b, p, w in FIELDS:
        z = 4 if b is None else BT[b][2]
        u = p // (8 * z) * z
        o.append("%s %s" % ("m4 %s 0 %d %d" % (f, p, w) if n == "Bits4" else "m3 %s %d %d %d %d" % (f, u, z, 8 * z - (p - 8 * u) - w, w), ENUM if b is None else ctypes_.tdl(dict(k="b", n=b))))
    return "s %s 8 %d %s" % (n, len(o), " ".join(o))


def sdef(env, t):
    x = expand(env, t)
    return "%s %s %d %d %s" % (t["k"], nm(t["n"]), size(x), len(t["m"]),
           " ".join("m %s %d %s" % (nm(m["n"]), o, etdl(env, m["of"])) for m, o in zip(t["m"], offsets(x)[0])))


def envdef(env):
    return "X s ENV 1 %d %s" % (len(env), " ".join("m %s 0 @%s %s" % (n, n, sdef(env, t)) for n, t in env.items()))


INTV = [0, 1, -1, 77, None]     # None: only the top bit set
FLV = [0.0, 1.5, -2.25, 1e10, 0.0000019]
CHV = [0, 10, -1, 77, 39]


GAPS = [1]     # bits between the fields may hold anything


def enc(t, x):
    """bytes of number x of a leaf type, and how many of them count (or which bits)"""
    if t["k"] == "e" and t["n"] in ("Bits3", "Bits4"):
        v = sum((x & ((1 << w) - 1)) << o for (_, _, o, w), x in zip(FIELDS, PACKS[x]))
        GAPS[0] = (GAPS[0] * 6364136223846793005 + 1442695040888963407) % 2 ** 64
        return (v | (GAPS[0] & ~BITMASK)).to_bytes(8, "little"), BITMASK
    if t["k"] == "e":
        return [0, 1, 7, 3][x].to_bytes(t["z"], "little"), t["z"]
    if t["k"] == "u":
        n = size(t)
        return bytes((x * 37 + i * x) & 255 for i in range(n)), n
    n = BT[t["n"]][2]
    if t["n"] == "char": return bytes([CHV[x] & 255]), 1
    if t["n"] == "bool": return bytes([x]), 1
    if t["n"] == "float": return struct.pack("<f", FLV[x]), 4
    if t["n"] == "double": return struct.pack("<d", FLV[x]), 8
    if t["n"] == "cdouble": return struct.pack("<dd", FLV[x], FLV[4 - x]), 16
    if t["n"] == "ldouble":
        m = {0: (0, 0), 1: (3 << 62, 0x3fff), 2: (9 << 60, 0xc000), 3: (0x9502f900 << 32, 0x4020), 4: (0xff00000000000000, 0x3feb)}[x]
        return struct.pack("<QH", *m) + b"\xaa" * 6, 10
    v = INTV[x]
    if v is None:
        v = 1 << (8 * n - 1)
    return (v & ((1 << (8 * n)) - 1)).to_bytes(n, "little"), n


def leaf_text(n, x):
    if n == "en": return str([0, 1, 7, 3][x])
    if n in dict.fromkeys(f[0] for f in FIELDS):
        v = PACKS[x][int(n[1:]) - 1]
        return {"b4": ["false", "true"], "b5": {0: "e0", 1: "e1", 7: "e7", 3: "3"}}[n][v] if n in ("b4", "b5") else str(v)
    if n == "char": return {77: "'M'", 39: r"'\''"}.get(CHV[x], str(CHV[x]))
    if n == "bool": return ["false", "true"][x]
    if n == "float": return "%f" % struct.unpack("<f", struct.pack("<f", FLV[x]))[0]
    if n in ("double", "ldouble"): return "%f" % FLV[x]
    if n == "cdouble": return "%f %s I * %f" % (FLV[x], "-" if FLV[4 - x] < 0 else "+", abs(FLV[4 - x]))
    b, k = enc(dict(k="b", n=n), x)
    return str(int.from_bytes(b, "little", signed=n[0] != "u"))


TOK = re.compile(r"""
    "(?:\\.|[^"\\])*" | '(?:\\.|[^'\\])' | '{3} | '\\' | 0x[0-9a-f]+ | -?\d+(?:\.\d+)? | \w+ | [^\s\w]""", re.X)


def text_toks(s):
    """C tokens of an initialiser; the words of a base type's name become one token"""
    raw = TOK.findall(s)
    out, i = [], 0
    while i < len(raw):
        if raw[i] in BASEWORDS and raw[i] not in KEYW:
            j = i
            while j < len(raw) and raw[j] in BASEWORDS:
                j += 1
            out.append(BASETXT.get(" ".join(raw[i:j]), "<" + " ".join(raw[i:j]) + ">"))
            i = j
        else:
            out.append(raw[i])
            i += 1
    return out


def spelled(toks):
    """strings spelled out as characters, compound literals of arrays without their type: a string literal has none"""
    out = []
    for w in toks:
        if w == "{" and out[-2:] == ["]", ")"] and "(" in out and (out[-3] == "[" or (out[-4] == "[" and out[-3].isdigit())):
            while out.pop() != "(":
                pass
        if w[0] == '"':
            cs = re.findall(r"\\.|[^\\]", w[1:-1])
            out += ["{"] + [y for c in cs for y in ({"\\n": "10"}.get(c, "'%s'" % c), ",")] + ["0", ",", "}"]
        else:
            out.append(w)
    return out


SPARSE = [True]     # quick tier: late allocations of long operations are sampled


class Mismatch(Exception):
    def __init__(self, kind, msg):
        super().__init__(msg)
        self.kind = kind


class Replay:
    def __init__(self, drv, h0, rng, faults=False):
        self.d, self.rng, self.log, self.faults, self.points = drv, rng, [], faults, 0
        self.env = h0["env"]
        self.cells, self.addr, self.hnd = [], {}, {}
        self.cmd(envdef(self.env))
        # blocks next to each other (as an arena allocator places them), in a random order, apart, or very far apart
        order = list(range(len(h0["heap"])))
        r = rng.random()
        if not faults and r < 0.7:
            self.cmd("B 1" if r < .45 else "B 2")
            rng.shuffle(order)
        at = {i: self.alloc(h0["heap"][i]) for i in order}
        for i, c in enumerate(h0["heap"]):
            self.add(c, at[i])
        for i in range(1, len(self.cells) + 1):
            self.write(i)

    def cmd(self, l):
        self.log.append(l)
        return self.d.cmd(l)

    def call(self, l, failed):
        """runs an operation; in fault mode first with every single allocation failing (then with all failing from there on)"""
        if not self.faults:
            return self.cmd(l)
        for frm in (0, 1):
            n = 0
            while True:
                n += 1 if n < 80 or not SPARSE[0] else self.rng.randint(1, 1 + n // 40)
                out = self.cmd("K %d %d %s" % (n, frm, l))
                if not out.endswith(" hit"):
                    if frm == 1:
                        return out
                    if l[0] == "C" and out[0] == "o":       # the operation itself was done
                        return out
                    if l[0] == "F" and out[0] == "o":
                        return out
                    break
                out = out[:-4]
                self.points += 1
                w = failed(out)
                if w == "done":
                    return out
                if w:
                    raise Mismatch("fault", "allocation %d%s of '%s' fails: %s ('%s')" % (n, " and later ones" if frm else "", l[:60], w, out[:300]))
                if n % 7 == 1:
                    self.verify("after a failed allocation (%d of '%s')" % (n, l[:60]), "fault")

    def alloc(self, c):
        return int(self.cmd("A %d" % max(1, c["z"])), 16)

    def add(self, c, a):
        self.cells.append(c)
        i = len(self.cells)
        self.addr[i] = a
        if c["top"]:
            pre = "x var1 " if self.rng.random() < 0.3 else ""
            h = int(self.cmd("V %x %s%s" % (a, pre, etdl(self.env, c["t"]))))
            if h < 0:
                raise CheckError("no value")
            self.hnd[i] = h

    def bytes_of(self, l, c):
        t = l["t"]
        if t["k"] == "p":
            a = 0 if c["v"] == "nil" else self.addr[c["x"]] + c["o"]
            return struct.pack("<Q", a), 8
        if t["k"] == "a":
            return b"", 0
        return enc(t, c["x"])

    def write(self, i, only=None):
        c = self.cells[i - 1]
        w = []
        for j, (l, x) in enumerate(zip(c["leaf"], c["c"])):
            if only is None or j == only:
                b, _ = self.bytes_of(l, x)
                if b:
                    w.append("%x %s" % (self.addr[i] + l["o"], b.hex()))
        if w:
            self.cmd("W " + " ".join(w))

    def verify(self, what, kind):
        """memory of every live block is what the model says"""
        live = [i for i, c in enumerate(self.cells, 1) if c["live"]]
        out = self.cmd("R " + " ".join("%x %d" % (self.addr[i], self.cells[i - 1]["z"]) for i in live))
        mem = bytes.fromhex(out)
        o = 0
        for i in live:
            c = self.cells[i - 1]
            n = c["z"]
            blk = mem[o:o + n]
            o += n
            for l, x in zip(c["leaf"], c["c"]):
                b, k = self.bytes_of(l, x)
                if k is BITMASK:
                    got, want = (int.from_bytes(y, "little") & k for y in (blk[l["o"]:l["o"] + 8], b))
                    if got != want: raise Mismatch(kind, "%s: block %d offset %d holds fields %x, expected %x (%s)" % (what, i, l["o"], got, want, x))
                    continue
                if blk[l["o"]:l["o"] + k] != b[:k]:
                    raise Mismatch(kind, "%s: block %d offset %d holds %s, expected %s (%s)" % (what, i, l["o"], blk[l["o"]:l["o"] + k].hex(), b[:k].hex(), x))

    def mode(self, m):
        return "%d %d %d %d" % (MB[m["mb"]], UP[m["up"]], UN[m["un"]], FX[m["fx"]])

    @staticmethod
    def parse(out):
        w = out.split(" ")
        plus = {int(x[1:].split(":")[0], 16): (int(re.sub(r"\D+$", "", x.split(":")[1])), x.endswith("i")) for x in w if x.startswith("+")}
        minus = {int(x[1:].rstrip("i"), 16): x.endswith("i") for x in w if x.startswith("-0x")}
        return w[0], plus, minus, any(x.startswith("BAD") for x in w)

    def fn(self, m, allow_default=True):
        """which allocator functions are passed: 0 own, 1 none, 2 none and no mode"""
        if allow_default and m == dict(mb="dag", up="fail", un="fail", fx="fail"):
            return self.rng.choice([0, 1, 2])
        return self.rng.choice([0, 0, 1])

    def copy(self, s):
        m = s["m"]
        src = s["a"]
        top = self.cells[src - 1]
        a = self.alloc(top)
        self.cmd("W %x %s" % (a, "55" * max(1, top["z"])))
        h = int(self.cmd("V %x %s" % (a, etdl(self.env, top["t"]))))
        fn = self.fn(m)
        def failed(o):
            res, plus, minus, bad = self.parse(o)
            if res == "ok": return "done"
            if res != "fail" or plus or minus or bad: return "answered"
            c, r = re.search(r"#(\d+) ~(\d+)", o).groups()
            if fn == 0 and c != r: return "%s blocks from the caller's allocator, %s released through the caller's function" % (c, r)
        out = self.call("C %d %d %s %d" % (self.hnd[src], h, self.mode(m), fn), failed)
        res, plus, minus, bad = self.parse(out)
        what = "deep copy (%s) of %s" % (self.mode(m), json.dumps(top["t"])[:200])
        if res != s["res"] or minus or bad:
            raise Mismatch("copy", "%s answered '%s', the specification says %s" % (what, out, s["res"]))
        if res == "fail":
            if plus:
                raise Mismatch("copy", "%s failed but kept memory: %s" % (what, out))
            return
        if fn == 0 and any(i for _, i in plus.values()):
            raise Mismatch("copy", "%s allocated with another allocator or left memory behind: %s" % (what, out))
        base = len(self.cells)
        new = s["cells"]
        amap = {base + 1: a}
        used = {a}
        todo, seen = [base + 1], set()
        while todo:
            i = todo.pop()
            if i in seen:
                continue
            seen.add(i)
            c = new[i - base - 1]
            blk = bytes.fromhex(self.cmd("R %x %d" % (amap[i], c["z"])))
            for l, x in zip(c["leaf"], c["c"]):
                if l["t"]["k"] != "p" or x["v"] != "ptr" or x["x"] <= base:
                    continue
                p = struct.unpack("<Q", blk[l["o"]:l["o"] + 8])[0] - x["o"]
                if x["x"] in amap:
                    if amap[x["x"]] != p:
                        raise Mismatch("copy", "%s: pointer at offset %d of copied block does not lead to the block the source's twin leads to" % (what, l["o"]))
                else:
                    if p not in plus or p in used or plus[p][0] < new[x["x"] - base - 1]["z"]:
                        raise Mismatch("copy", "%s: pointer at offset %d does not lead to a fresh block of sufficient size" % (what, l["o"]))
                    amap[x["x"]] = p
                    used.add(p)
                    todo.append(x["x"])
        extra = set(plus) - set(amap.values())
        if extra:
            raise Mismatch("copy", "%s allocated %d blocks, the specification says %d" % (what, len(plus), len(new) - 1))
        for j, c in enumerate(new):
            i = base + 1 + j
            if i not in amap:
                raise CheckError("model block not mapped")
            self.cells.append(c)
            self.addr[i] = amap[i]
        self.hnd[base + 1] = h

    def expected(self, toks):
        out = []
        for w in toks:
            if w[0] == "#":
                n, x = w[1:].split(":")
                out += text_toks(leaf_text(n, int(x)))
            elif w[0] == "@":
                b, o = w[1:].split(":")
                out.append("0x%x" % (self.addr[int(b)] + int(o)))
            elif w[0] == "$":
                out.append('"%s"' % "".join({"1": "\\n", "3": "M", "4": "\\'"}[c] for c in w[1:]))
            else:
                out.append(w)
        return out

    def step(self, s):
        op = s["op"]
        if op == "show":
            exp = self.expected(s["cells"])

            def failed(o):
                t, _, r = o.rpartition("\x01")
                if r.strip() or (t != "-" and spelled(text_toks(t)) != spelled(exp)): return "answered"
            out = self.call("S %d %d" % (self.hnd[s["a"]], s["b"]), failed)
            txt, _, rest = out.rpartition("\x01")
            got = text_toks(txt)
            if rest:
                raise Mismatch("show", "showing a value left memory behind: %s" % out[:300])
            if s["res"] == "none":
                if txt != "-":
                    raise Mismatch("show", "a value that cannot be shown was shown as '%s'; type %s" % (txt[:400], json.dumps(self.cells[s["a"] - 1]["t"])[:200]))
            elif got != exp:
                k = next((i for i, (x, y) in enumerate(zip(got, exp)) if x != y), min(len(got), len(exp)))
                raise Mismatch("show", "shown as '%s'; token %d is %s, the specification says %s (%s)" % (txt[:400], k, got[k:k + 3], exp[k:k + 3], "deep" if s["b"] else "shallow"))
            self.verify("after showing", "show")
        elif op == "copy":
            self.copy(s)
            self.verify("after deep copy", "copy")
        elif op == "eq":
            exp = {"error": "-1"}.get(s["res"], s["res"])
            out = self.call("Q %d %d %s" % (self.hnd[s["a"]], self.hnd[s["b"]], self.mode(s["m"])), lambda o: None if o in ("-1 -1", exp + " " + exp) else "answered")
            w = out.split(" ")
            if w[:2] != [exp, exp] or len(w) > 2:
                raise Mismatch("eq", "deep comparison (%s) answered '%s', the specification says %s; type %s" % (self.mode(s["m"]), out, s["res"], json.dumps(self.cells[s["a"] - 1]["t"])[:200]))
            self.verify("after deep comparison", "eq")
        elif op == "free":
            fn = self.rng.choice([0, 0, 1])
            if fn == 1 and s["m"]["up"] == s["m"]["un"] == s["m"]["fx"] == "fail":
                fn = 2
            def failed(o):
                res, plus, minus, bad = self.parse(o)
                if res == "ok": return "done"
                if res != "fail" or plus or minus or bad: return "answered"
            out = self.call("F %d %s %d" % (self.hnd[s["a"]], self.mode(s["m"]).split(" ", 1)[1], fn), failed)
            res, plus, minus, bad = self.parse(out)
            exp = {self.addr[b] for b in s["cells"]}
            if res != s["res"] or plus or bad or set(minus) != exp or (fn == 0 and (any(minus.values()) or int(out.split("#")[1].split()[0]) != len(exp))):
                raise Mismatch("free", "deep release (%s) answered '%s'; the specification says %s, %d blocks" % (self.mode(s["m"]), out, s["res"], len(exp)))
            if res == "ok":
                for b in s["cells"]:
                    self.cells[b - 1]["live"] = False
                self.cells[s["a"] - 1]["live"] = False
            self.verify("after deep release", "free")
        elif op == "end":
            pass
        elif op == "poke":
            self.cells[s["a"] - 1]["c"][s["b"] - 1] = s["cells"][0]["c"]
            self.write(s["a"], s["b"] - 1)
        elif op == "mismatch":
            t = self.cells[s["a"] - 1]["t"]
            others = [x for x in ("*N1", "*N2", "*N3", "b int 6 4", "p b int 6 4", "a 3 *N1") if x != etdl(self.env, t)]
            a = int(self.cmd("A 4096"), 16)
            h = int(self.cmd("V %x %s" % (a, others[s["b"] % len(others)])))
            out = self.cmd("C %d %d %s 0" % (self.hnd[s["a"]], h, self.mode(s["m"])))
            if self.parse(out)[0] != "fail" or self.parse(out)[1] or self.parse(out)[3] or bytes.fromhex(self.cmd("R %x 4096" % a)).strip(b"\xaa"):
                raise Mismatch("copy", "deep copy to a destination of another type was not refused: '%s'" % out)


def deep(ctx, kinds, mix, n, faults=False):
    exe = ctx.driver_plain("deep", ["deep_drv.c", "tdl.c", "alloc.c"])
    invs = ["CopyEqual", "CopyEqualTree", "CopyDisjoint", "Symmetric", "Reflexive", "FreeAll", "SimEmit"]

    def one(k):
        r = ctx.tlc("Deep", dict(NEnv=n[1], MaxBlocks=3 + k % 4, SimDepth=n[2], Mix="<<%s>>" % ", ".join('"%s"' % m for m in mix)), init="Init", nxt="Next",
                    invariants=invs, simulate=n[0], depth=n[2] + 1, workers=1, seed=ctx.seed * 1000 + k, timeout=850, heap="3g")
        rng = random.Random(ctx.seed * 7919 + k)
        drv = Driver(exe)
        out = []
        ops = collections.Counter()
        for h in r["lines"]:
            rp = None
            try:
                rp = Replay(drv, h[0], rng, faults)
                for s in h[1:]:
                    rp.step(s)
                    ops[s["op"] + ":" + s["res"]] += 1
                drv.cmd("Z")
                ops["failed_allocations"] += rp.points
            except Mismatch as e:
                if e.kind in kinds:
                    out.append((str(e), list(rp.log)))
                drv.close()
            except Died as e:
                l = rp.log[-1][0] if rp and rp.log else "?"
                if (faults and l == "K") or {"C": "copy", "Q": "eq", "F": "free", "S": "show", "R": "copy", "W": "copy"}.get(l, "?") in kinds:
                    out.append(("implementation failed: %s; command '%s'" % (e, rp.log[-1][:200] if rp and rp.log else ""), list(rp.log) if rp else []))
                if len(out) > 30:
                    break
        drv.close()
        if r["lines"] and k == 0:
            with LOCK:
                ctx.sample(dict(env=h[0]["env"], steps=[dict(op=s["op"], res=s["res"], mode=s["m"]) for s in h[1:]]))
        return len(r["lines"]), ops, out
    for cnt, ops, out in pmap(one, range(n[3]), 8):
        ctx.cov["traces_validated_against_impl"] += cnt
        ctx.part("histories", behaviours=cnt, **{k.replace(":", "_"): v for k, v in ops.items()})
        for w, log in out:
            ctx.violate(w, commands=log, key=w)
    ctx.assumptions += ["no pointer leads into the value's own memory", "every reached block is also reached by a pointer to its start that shows all of it",
                        "structures are laid out by the System V x86-64 rules"]


def c09(ctx):
    deep(ctx, {"copy"}, ["copy", "copy", "copy", "poke", "mismatch", "free"], (250, 250, 12, 8) if ctx.quick else (3000, 1500, 14, 24))


def c10(ctx):
    deep(ctx, {"eq"}, ["copy", "eq", "eq", "eq", "poke", "eq"], (250, 250, 14, 8) if ctx.quick else (3000, 1500, 16, 24))


def c11(ctx):
    deep(ctx, {"free"}, ["copy", "free", "poke", "copy", "poke", "copy"], (250, 250, 14, 8) if ctx.quick else (3000, 1500, 16, 24))


def c08(ctx):
    c_scalar.c08_scalars(ctx)
    deep(ctx, {"show"}, ["show", "show", "poke", "show", "poke", "copy"], (300, 300, 14, 8) if ctx.quick else (3000, 1500, 16, 24))


def c12_deep(ctx):
    deep(ctx, {"fault"}, ["copy", "eq", "show", "poke", "free", "show"], (12, 60, 8, 8) if ctx.quick else (300, 600, 10, 16), faults=True)
