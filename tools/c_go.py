"""C20 (settings), C21 (modules), C22 (debug information): the Go packages of the generator."""
import json, os, random, shutil, struct, subprocess
from vlib import *

GODRV = os.path.join(VERIF, "godrv")


def godriver(ctx):
    out = os.path.join(ctx.mk("go"), "godrv")
    if not os.path.exists(out):
        r = run([os.path.join(GODRV, "build.sh"), out], timeout=300)
        if r.returncode: raise CheckError("go driver does not build: " + r.stdout[-2000:])
    return out


def ask(exe, reqs):
    """answers to the requests; the driver is started again after a crash"""
    p = subprocess.run([exe], input="".join(json.dumps(r) + "\n" for r in reqs), capture_output=True, text=True, timeout=800)
    out = [json.loads(l) for l in p.stdout.splitlines()]
    if len(out) < len(reqs):
        out.append({"panic": p.stderr[-500:]})
        if len(out) < len(reqs): out += ask(exe, reqs[len(out):])
    for r, a in zip(reqs, out):
        if "driver" in a: raise CheckError("go driver: %s on %s" % (a["driver"], str(r)[:500]))
    return out


def asks(exe, reqs):
    n = max(1, (len(reqs) + J - 1) // J)
    parts = [reqs[i:i + n] for i in range(0, len(reqs), n)]
    return [a for p in pmap(lambda q: ask(exe, q), parts, J) for a in p]


# ------------------------------------------------------------------- settings
def py(v):
    k = v["k"]
    if k == "n": return None
    if k == "l": return [py(x) for x in v["e"]]
    if k == "m": return {n: py(x) for n, x in (v["e"].items() if isinstance(v["e"], dict) else [])}
    return v[k]


def norm(v):
    if isinstance(v, dict): return {k: norm(x) for k, x in v.items()}
    if isinstance(v, list): return [norm(x) for x in v]
    if isinstance(v, float) and v.is_integer(): return int(v)
    return v


def same(a, b):
    if isinstance(a, bool) != isinstance(b, bool): return False
    if isinstance(a, dict) and isinstance(b, dict): return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    if isinstance(a, list) and isinstance(b, list): return len(a) == len(b) and all(map(same, a, b))
    return type(norm(a)) == type(norm(b)) and norm(a) == norm(b)


def q(s): return json.dumps(s, ensure_ascii=False)


def block(v, ind, flow=0):
    """YAML block style"""
    p = "  " * ind
    if isinstance(v, dict):
        if not v: return " {}\n"
        return "\n" + "".join("%s%s:%s" % (p, q(k) if not k.isalpha() or k == "true" else k, block(x, ind + 1)) for k, x in v.items())
    if isinstance(v, list):
        if not v: return " []\n"
        return "\n" + "".join("%s- %s\n" % (p, json.dumps(x, ensure_ascii=False)) for x in v)
    return " " + json.dumps(v, ensure_ascii=False) + "\n"


class Texts:
    """override texts in every form that is accepted"""
    def __init__(self, d): self.d, self.n = d, 0

    def make(self, v, i):
        form = i % 5
        if form == 1: t = json.dumps(v)
        elif form == 2: t = "  \n" + json.dumps(v, indent=1)
        elif form == 3: t = "---\n# settings\n" + (block(v, 0).lstrip("\n") if v else "{}\n")
        else: t = block(v, 0).lstrip("\n") if v else ""
        if form == 4 or (i % 31) == 1:
            self.n += 1
            f = os.path.join(self.d, "o%d.%s" % (self.n, "yaml"))
            with open(f, "w") as h: h.write(t)
            return "--file:" + f
        return t


BADTEXT = ["{", "{a: 1}", "a: [", "a: b: c", "- 1", "text", "7", "{\"a\": 1", "[1]", "--file:/nonexistent/x", "\ta: 1", "{\"a\":}"]


def c20(ctx):
    exe = godriver(ctx)
    d = ctx.mk("settings")
    tx = Texts(d)
    one = '{M(<<>>), M("a" :> I(1)), M("a" :> Null), M("a" :> S("s")), M("a" :> L(<<I(1), I(2)>>)), M("a" :> L(<<>>)), M("a" :> M(<<>>)), M("a" :> M("a" :> I(3))), M("a" :> M("b" :> Null)), ' \
          'M("a" :> M("a" :> M("b" :> Bo(FALSE)))), M("b" :> I(4)), M("a" :> I(2) @@ "b" :> M("a" :> I(5))), M("a" :> M("a" :> S("t") @@ "b" :> L(<<Null>>)))}'
    runs = [dict(Mode='"all"', Base=one, MaxLayers=3)]
    if not ctx.quick: runs = [dict(Mode='"all"', Base=one, MaxLayers=4)]
    inv = ["LastWins", "NothingElse", "Neutral", "Again", "Emit"]
    lines = []
    for c in runs: lines += ctx.tlc("Settings", c, spec="Spec", invariants=inv, workers=1, timeout=800)["lines"]
    n = 120 if ctx.quick else 4000
    sims = pmap(lambda k: ctx.tlc("Settings", dict(Mode='"rnd"', Base="{}", MaxLayers=7), spec="Spec", invariants=inv, simulate=n, depth=12, seed=ctx.seed * 100 + k, timeout=800)["lines"], list(range(J)), J)
    lines += [x for s in sims for x in s]
    reqs, want = [], []
    for i, s in enumerate(lines):
        base, ovs = py(s["layers"][0]), [py(o) for o in s["layers"][1:]]
        texts = [tx.make(o, i + j) for j, o in enumerate(ovs)]
        bad = s["bad"]
        if bad: texts.insert(bad - 1 if bad - 1 <= len(texts) else len(texts), BADTEXT[i % len(BADTEXT)])
        reqs.append(dict(Op="merge", In=json.dumps(base, ensure_ascii=False), Overrides=texts))
        want.append((base, None if bad else py(s["cur"])))
    # nothing in an override, whatever it looks like
    for t in ("", "\n", "# nothing\n", "{}", "null", "~", "---\n", "---\nnull\n", " {} "):
        for base in ({}, {"a": 1}, {"a": {"b": None}}):
            reqs.append(dict(Op="merge", In=json.dumps(base), Overrides=[t]))
            want.append((base, base))
    ans = asks(exe, reqs)
    ctx.cov["traces_validated_against_impl"] += len(reqs)
    for r, (base, w), a in zip(reqs, want, ans):
        what = None
        if "panic" in a: what = "the merge crashes: %s" % a["panic"]
        elif w is None and "out" in a: what = "an unreadable override is not reported; the result is %s" % json.dumps(a["out"])
        elif w is not None and "err" in a: what = "the merge fails: %s" % a["err"]
        elif w is not None and not same(a["out"], w): what = "merged settings are %s, not %s" % (json.dumps(a["out"]), json.dumps(w))
        elif not same(a["in"] or {}, base): what = "the module's own settings became %s" % json.dumps(a["in"])
        if what:
            ctx.violate("%s (settings %s, overrides %s)" % (what, r["In"], json.dumps(r["Overrides"])), request=r, key="merge")
    ctx.part("merges", sequences=len(reqs))
    cli(ctx, [(json.loads(r["In"]), r["Overrides"], w[1]) for r, w in list(zip(reqs, want))[:: max(1, len(reqs) // (150 if ctx.quick else 1500))]])


def cli(ctx, cases):
    """the same through the executable: settings of a module, overrides on the command line, output of its template"""
    metac = ctx.metac()
    d = ctx.mk("settings_cli")
    def one(ic):
        i, (base, ovs, w) = ic
        if not base: return None
        m = os.path.join(d, "m%d" % i)
        os.makedirs(os.path.join(m, "show"))
        with open(os.path.join(m, "show", "module.yaml"), "w") as f:
            f.write("apiVersion: v1\nkind: goTemplate\nmetadata:\n  name: show\nspec:\n  settings: %s\n  template: |\n    {{- range $k, $v := . }}[{{ $k | printf \"%%q\" }}={{ $v | printf \"%%#v\" }}]{{ end -}}\n" % json.dumps(base))
        p = subprocess.run([metac, "run", "show", "-M", m, *[x for o in ovs for x in ("-s", o)]], capture_output=True, text=True, timeout=60, cwd=d)
        shutil.rmtree(m, ignore_errors=True)
        if w is None:
            return None if p.returncode and not p.stdout.strip() else "an unreadable override %s is not reported by the executable (exit %d, output %r)" % (json.dumps(ovs), p.returncode, p.stdout[:300])
        exp = "".join("[%s=%s]" % (goq(k), gov(w[k])) for k in sorted(w))
        if p.returncode or canon(p.stdout.rstrip("\n")) != canon(exp):
            return "settings %s with overrides %s reach the template as %r (exit %d), not %r" % (json.dumps(base), json.dumps(ovs), p.stdout[:600], p.returncode, exp[:600])
    for r in pmap(one, list(enumerate(cases)), J):
        if r: ctx.violate(r, key="cli")
    ctx.cov["traces_validated_against_impl"] += len(cases)
    ctx.part("command lines", runs=len(cases))


def goq(s):
    return '"' + s.replace("\\", "\\\\").replace('"', '\\"').replace("\n", "\\n").replace("\t", "\\t") + '"'


def gov(v):
    if v is None: return "<nil>"
    if isinstance(v, bool): return "true" if v else "false"
    if isinstance(v, (int, float)): return str(v)
    if isinstance(v, str): return goq(v)
    if isinstance(v, list): return "[]interface {}{%s}" % ", ".join(gov(x) if x is not None else "interface {}(nil)" for x in v)
    return "map[string]interface {}{%s}" % ", ".join("%s:%s" % (goq(k), gov(v[k]) if v[k] is not None else "interface {}(nil)") for k in sorted(v))


def canon(s):
    return re.sub(r"\b2e\+09\b", "2000000000", s)


# -------------------------------------------------------------------- modules
HEAD = "apiVersion: v1\nkind: %s\nmetadata:\n  name: x\n"


def put(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as f: f.write(text)


def layout(d, i, name, st, ident, lib):
    """what directory i has under the module's name"""
    m = os.path.join(d, "d%d" % i, name)
    os.makedirs(os.path.join(d, "d%d" % i), exist_ok=True)
    if st == "none": return
    os.makedirs(m, exist_ok=True)
    body = "spec:\n%s  settings:\n    id: %s\n  template: \"{{ .id }}:%s\"\n" % ("  include: [lib]\n" if lib else "", ident, "{{ include \\\"lib.id\\\" . }}" if lib else "0")
    if st == "nospec": put(os.path.join(m, "other.yaml"), HEAD % "goTemplate" + body.replace(ident, "other" + ident))
    elif st == "text": put(os.path.join(m, "module.yaml"), "kind: [goTemplate\n")
    elif st == "odd": put(os.path.join(m, "module.yaml"), HEAD % "starlark" + body)
    else:
        put(os.path.join(m, "module.yaml"), HEAD % ("goTemplate" if st in ("g", "gf") else "second") + body)
        put(os.path.join(m, "other.yaml"), HEAD % "goTemplate" + body.replace(ident, "other" + ident))


def layout_lib(d, i, st):
    m = os.path.join(d, "d%d" % i, "lib")
    if st == "none": return
    os.makedirs(m, exist_ok=True)
    if st == "nospec": return put(os.path.join(m, "templates", "a.tpl"), '{{ define "lib.id" }}X%d{{ end }}' % i)
    put(os.path.join(m, "module.yaml"), HEAD % ("starlark" if st == "odd" else "goTemplate"))
    if st in ("odd", "good"): put(os.path.join(m, "templates", "sub", "a.tpl") if i % 2 else os.path.join(m, "templates", "a.tpl"), '{{ define "lib.id" }}%d{{ end }}' % i)
    if st == "badtpl": put(os.path.join(m, "templates", "a.tpl"), '{{ define "lib.id" }}Y%d{{ end }' % i)


def c21(ctx):
    exe = godriver(ctx)
    d0 = ctx.mk("modules")
    MS = '{"none", "nospec", "text", "odd", "g", "h", "gf"}'
    n = 3 if ctx.quick else 4
    lines = ctx.tlc("Modules", dict(Dirs=n, States=MS, LibStates='{"none"}', Lib="FALSE"), spec="Spec", invariants=["FirstUsable", "Emit"], properties=["FirstDecides"], workers=1)["lines"]
    reqs, want = [], []
    rnd = random.Random(ctx.seed)
    for k, s in enumerate(lines):
        d = os.path.join(d0, "s%d" % k)
        name = ["mod", "a-b_c", "a.b", "..x", "mod 1", "m\u00f6d"][k % 6]
        for i, st in enumerate(s["mods"], 1): layout(d, i, name, st, "i%d" % i, False)
        put(os.path.join(d, "out", name, "module.yaml"), HEAD % "goTemplate" + "spec: {template: bad}\n")
        put(os.path.join(d, "out", "module.yaml"), HEAD % "goTemplate" + "spec: {template: bad}\n")
        for i in range(1, n + 1): put(os.path.join(d, "d%d" % i, "module.yaml"), HEAD % "goTemplate" + "spec: {template: bad}\n")
        put(os.path.join(d, "module.yaml"), HEAD % "goTemplate" + "spec: {template: bad}\n")
        paths = [os.path.join(d, "d%d" % i) for i in range(1, n + 1)]
        mp = lambda i: paths[i - 1] + "/" + name
        fail = [mp(i) for i, st in enumerate(s["mods"], 1) if st == "gf"]
        kn = {"g": "goTemplate", "gf": "goTemplate", "h": "second"}
        for spec in ("", "other.yaml"):
            reqs.append(dict(Op="find", Paths=paths, Name=name, Spec=spec, Kinds=["goTemplate", "second"], Fail=fail))
            want.append(([[mp(i), kn[s["mods"][i - 1]]] for i in s["infos"]],
                         [kn[s["mods"][s["inst"] - 1]], mp(s["inst"]), spec or "module.yaml"] if s["inst"] else None))
        # repeated and missing search directories change nothing
        if k % 5 == 0 and s["inst"]:
            i = s["inst"]
            reqs.append(dict(Op="find", Paths=[os.path.join(d, "missing")] + paths + paths[:1], Name=name, Spec="", Kinds=["goTemplate", "second"], Fail=fail))
            want.append((None, [kn[s["mods"][i - 1]], mp(i), "module.yaml"]))
        # a name that could leave the directories
        bad = ["..", ".", "../out", "../out/" + name, "./" + name, name + "/", "/" + name, name + "/../" + name, "..\\out", name + "\\x", "../d1/" + name, os.path.join(d, "out", name), "x/../../out", "d1/" + name, "\\", "/"]
        for b in rnd.sample(bad, 3 if ctx.quick else 8):
            reqs.append(dict(Op="find", Paths=paths, Name=b, Spec="", Kinds=["goTemplate", "second"], Fail=[]))
            want.append((None, None))
        # a specification named by its path
        if s["inst"] and k % 3 == 0:
            i = s["inst"]
            reqs.append(dict(Op="find", Paths=paths, Name="", Spec=mp(i) + "/module.yaml", Kinds=["goTemplate", "second"], Fail=fail))
            want.append((None, [kn[s["mods"][i - 1]], mp(i), "module.yaml"]))
    ans = asks(exe, reqs)
    ctx.cov["traces_validated_against_impl"] += len(reqs)
    for r, (infos, inst), a in zip(reqs, want, ans):
        what = None
        if "panic" in a: what = "search crashes: %s" % a["panic"]
        elif inst is None and "inst" in a: what = "search finds %s, should be refused or find nothing" % a["inst"]
        elif inst is not None and "err" in a: what = "search fails (%s), should find %s" % (a["err"], inst[1])
        elif inst is not None and (a["inst"][0], os.path.normpath(a["inst"][1]), a["inst"][2]) != (inst[0], os.path.normpath(inst[1]), inst[2]): what = "search finds %s instead of %s" % (a["inst"], inst)
        elif infos is not None and [[os.path.normpath(p), k] for p, k in a["infos"]] != [[os.path.normpath(p), k] for p, k in infos]: what = "modules found: %s instead of %s" % (a["infos"], infos)
        if what:
            st = {p: sorted(os.path.relpath(os.path.join(x, f), p) for x, _, fs in os.walk(p) for f in fs) for p in r["Paths"] if os.path.isdir(p)}
            ctx.violate("%s (name %r, specification %r, directories %s)" % (what, r["Name"], r["Spec"], json.dumps(st)), request=r, key="find")
    ctx.part("searches", layouts=len(lines), requests=len(reqs))
    shutil.rmtree(d0, ignore_errors=True)
    runs(ctx)


def runs(ctx):
    """running: output of the template of the chosen module with the chosen library, or an error and no output"""
    metac = ctx.metac()
    n = 2 if ctx.quick else 3
    A = ctx.tlc("Modules", dict(Dirs=n, States='{"none", "text", "odd", "g"}', LibStates='{"none", "nospec", "odd", "notpl", "badtpl", "good"}', Lib="TRUE"), spec="Spec", invariants=["FirstUsable", "Emit"], properties=["FirstDecides"], workers=1)["lines"]
    B = ctx.tlc("Modules", dict(Dirs=3, States='{"none", "nospec", "text", "odd", "g"}', LibStates='{"none"}', Lib="FALSE"), spec="Spec", invariants=["FirstUsable", "Emit"], properties=["FirstDecides"], workers=1)["lines"]
    d0 = ctx.mk("modrun")
    step = 3 if ctx.quick and len(A) > 300 else 1 if ctx.quick else max(1, len(A) // 6000)
    off = ctx.seed % step
    jobs = [(k, s, True) for k, s in enumerate(A)][off::step] + [(k, s, False) for k, s in enumerate(B)]
    def one(j):
        k, s, lib = j
        d = os.path.join(d0, "%s%d" % ("l" if lib else "s", k))
        nd = len(s["mods"])
        for i, st in enumerate(s["mods"], 1): layout(d, i, "mod", st, "i%d" % i, lib)
        for i, st in enumerate(s["libs"], 1): layout_lib(d, i, st)
        put(os.path.join(d, "out", "mod", "module.yaml"), HEAD % "goTemplate" + "spec: {settings: {}, template: escaped}\n")
        args, cwd = [x for i in range(1, nd + 1) for x in ("-M", os.path.join(d, "d%d" % i))], d
        if k % 4 == 1: args = [x for i in range(1, nd + 1) for x in ("-M", "d%d" % i)]           # relative directories
        w = s["runs"]
        exp = "i%d:%d" % tuple(w) if w[0] else None
        p = subprocess.run([metac, "run", "mod", *args], capture_output=True, text=True, timeout=60, cwd=cwd)
        r = None
        if exp is None and (p.returncode == 0 or p.stdout.strip()): r = "nothing usable there, but exit status is %d and output %r" % (p.returncode, p.stdout[:200])
        elif exp is None and not p.stderr.strip(): r = "failure without a message"
        elif exp is not None and (p.returncode or p.stdout.strip() != exp): r = "output is %r (exit %d, %s), not %r" % (p.stdout[:200], p.returncode, p.stderr[-300:], exp)
        if r is None and k % 7 == 0:
            p = subprocess.run([metac, "run", ["../out/mod", "..", "/mod", "out\\mod"][k % 4], *args], capture_output=True, text=True, timeout=60, cwd=cwd)
            if p.returncode == 0 or "escaped" in p.stdout: r = "a name that leaves the directories is run: %r" % p.stdout[:200]
        if r is None and exp and k % 5 == 0:      # by path, in another working directory, and with an override
            i = w[0]
            p = subprocess.run([metac, "run", "-f", os.path.join(d, "d%d" % i, "mod", "module.yaml"), *args, "-s", "id: over", "-C", d0], capture_output=True, text=True, timeout=60, cwd="/")
            e2 = "over:%d" % w[1]
            if k % 4 != 1 and (p.returncode or p.stdout.strip() != e2): r = "run by the path of its specification gives %r (exit %d, %s), not %r" % (p.stdout[:200], p.returncode, p.stderr[-300:], e2)
        if r is None and exp and k % 5 == 1:
            p = subprocess.run([metac, "run", "mod", *args, "-C", os.path.join(d, "missing")], capture_output=True, text=True, timeout=60, cwd=cwd)
            if p.returncode == 0 or p.stdout.strip(): r = "a working directory that does not exist is no error: exit %d, %r" % (p.returncode, p.stdout[:200])
        shutil.rmtree(d, ignore_errors=True)
        return r and (r, s)
    for r in pmap(one, jobs, J):
        if r: ctx.violate("%s (module in the directories: %s, library: %s)" % (r[0], r[1]["mods"], r[1]["libs"]), layout=r[1], key="run")
    ctx.cov["traces_validated_against_impl"] += len(jobs)
    ctx.part("runs of the executable", layouts=len(jobs))


# ---------------------------------------------------------- debug information
TAGS = dict(CompileUnit=0x11, StructType=0x13, UnionType=0x17, Subprogram=0x2e, LexDwarfBlock=0x0b, Variable=0x34, Member=0x0d, Typedef=0x16, PointerType=0x0f, SubroutineType=0x15)
# model form -> attribute, its name, form code, class, kind of the value
AT = dict(name=(0x03, "Name", 0x08, "ClassString", "string"), strp=(0x1b, "CompDir", 0x0e, "ClassString", "string"), addr=(0x11, "Lowpc", 0x01, "ClassAddress", "uint64"),
          blk=(0x1c, "ConstValue", 0x0a, "ClassBlock", "bytes"), expr=(0x40, "FrameBase", 0x18, "ClassExprLoc", "bytes"), d1=(0x3b, "DeclLine", 0x0b, "ClassConstant", "int64"),
          d2=(0x0b, "ByteSize", 0x05, "ClassConstant", "int64"), d4=(0x0d, "BitSize", 0x06, "ClassConstant", "int64"), d8=(0x2f, "UpperBound", 0x07, "ClassConstant", "int64"),
          sd=(0x22, "LowerBound", 0x0d, "ClassConstant", "int64"), ud=(0x37, "Count", 0x0f, "ClassConstant", "int64"), fl=(0x3f, "External", 0x0c, "ClassFlag", "bool"),
          fp=(0x27, "Prototyped", 0x19, "ClassFlag", "bool"), ref=(0x49, "Type", 0x13, "ClassReference", "offset"), refa=(0x47, "Specification", 0x10, "ClassReference", "offset"),
          sig=(0x69, "Signature", 0x20, "ClassReferenceSig", "uint64"), loc=(0x02, "Location", 0x17, "ClassLocListPtr", "int64"), rng=(0x55, "Ranges", 0x17, "ClassRangeListPtr", "int64"),
          mac=(0x43, "MacroInfo", 0x17, "ClassMacPtr", "int64"), str2=(0x10, "StmtList", 0x17, "ClassLinePtr", "int64"), vend=(0x3fe1, None, 0x0f, "ClassConstant", "int64"),
          sob=(0x72, "StrOffsetsBase", 0x17, "ClassStrOffsetsPtr", "int64"), ab=(0x73, "AddrBase", 0x17, "ClassAddrPtr", "int64"), rb=(0x74, "RnglistsBase", 0x17, "ClassRngListsPtr", "int64"),
          lb=(0x8c, "LoclistsBase", 0x17, "ClassLocListPtr", "int64"), llx=(0x2a, "ReturnAddr", 0x22, "ClassLocList", "uint64"), ral=(0x31, "AbstractOrigin", 0x1f20, "ClassReferenceAlt", "int64"),
          sal=(0x5a, "Description", 0x1f21, "ClassStringAlt", "int64"), d16=(0x1c, "ConstValue", 0x1e, "ClassConstant", "bytes"))
LFILES = ["/s/a.c", "/s/with: colon", "/s/\u00fcn\u00ef.h", "/s/true"]


def uleb(n):
    r = b""
    while True:
        b, n = n & 127, n >> 7
        if not n: return r + bytes([b])
        r += bytes([b | 128])


def sleb(n):
    r = b""
    while True:
        b, n = n & 127, n >> 7
        if (n == 0 and not b & 64) or (n == -1 and b & 64): return r + bytes([b])
        r += bytes([b | 128])


def line_table():
    files = b"".join(f.encode() + b"\0" + b"\0\0\0" for f in LFILES) + b"\0"
    h = struct.pack("<BBBbBB", 1, 1, 1, -5, 14, 13) + bytes([0, 1, 1, 1, 1, 0, 0, 0, 1, 0, 0, 1]) + b"\0" + files
    b = struct.pack("<HI", 4, len(h)) + h
    return struct.pack("<I", len(b)) + b


class Encoder:
    """a list of entries -> sections of a file, and what the in-memory form has to be"""
    def __init__(self, s):
        self.s = s
        self.n = len(s["dies"])
        self.unit = []
        u = -1
        for i, x in enumerate(s["dies"]):
            if x["dep"] == 0: u += 1
            self.unit.append(u)
        self.off = [0] * self.n
        self.after = [0] * self.n       # where the entry with all its children ends
        self.base = {}
        self.strs = b"\0"
        self.spos = {}
        for _ in range(2): self.layout()

    def strp(self, t):
        if t not in self.spos:
            self.spos[t] = len(self.strs)
            self.strs += t.encode() + b"\0"
        return self.spos[t]

    def target(self, i, a):
        same = [j for j in range(self.n) if self.unit[j] == self.unit[i]]
        return same[int(a["v"]) % len(same)] if a["f"] == "ref" else int(a["v"]) % self.n

    def attrs(self, i):
        x = self.s["dies"][i]
        r = [(0x01, 0x13, struct.pack("<I", (self.after[i] - self.base.get(self.unit[i], 0)) & 0xffffffff), ["Sibling", "ClassReference", ["offset", str(self.after[i])]])] if x["sib"] else []
        for a in x["at"]:
            code, nm, form, cls, kind = AT[a["f"]]
            nm = nm or "Attr(%d)" % code
            v = a["v"]
            f = a["f"]
            if f == "name": b = v.encode() + b"\0"
            elif f == "strp": b = struct.pack("<I", self.strp(v))
            elif f in ("addr", "sig"): b = struct.pack("<Q", int(v))
            elif f in ("blk", "expr"): b = bytes([len(a["b"])]) + bytes(a["b"]); v = [str(c) for c in a["b"]]
            elif f == "d1": b = struct.pack("<B", int(v))
            elif f == "d2": b = struct.pack("<H", int(v))
            elif f == "d4": b = struct.pack("<I", int(v))
            elif f == "d8": b = struct.pack("<q", int(v))
            elif f == "sd": b = sleb(int(v))
            elif f == "d16": b = bytes(a["b"]); v = [str(c) for c in a["b"]]
            elif f in ("ud", "vend", "llx"): b = uleb(int(v))
            elif f == "fl": b = b"\1" if v == "true" else b"\0"
            elif f == "fp": b = b""
            elif f in ("ref", "refa"):
                t = self.target(i, a)
                v = str(self.off[t])
                b = struct.pack("<I", (self.off[t] - (self.base.get(self.unit[i], 0) if f == "ref" else 0)) & 0xffffffff)
            elif f == "str2" and x["tag"] == "CompileUnit": v = "0"; b = struct.pack("<I", 0)
            else: b = struct.pack("<I", int(v))
            r.append((code, form, b, [nm, cls, [kind, v]]))
        return r

    def layout(self):
        self.abbrev, self.info, self.fields = b"", b"", []
        body, opened = b"", []
        start = 0
        def flush(body):
            if not body: return
            self.info += struct.pack("<IHIB", len(body) + 7, 4, 0, 8) + body
        for i, x in enumerate(self.s["dies"]):
            while len(opened) > x["dep"]:
                body += b"\0"
                self.after[opened.pop()] = start + 11 + len(body)
            if x["dep"] == 0:
                flush(body)
                start, body = len(self.info), b""
                self.base[self.unit[i]] = start
            self.off[i] = start + 11 + len(body)
            ats = self.attrs(i)
            self.fields.append([a[3] for a in ats])
            self.abbrev += uleb(i + 1) + uleb(TAGS[x["tag"]]) + (b"\1" if x["kids"] else b"\0") + b"".join(uleb(a[0]) + uleb(a[1]) for a in ats) + b"\0\0"
            body += uleb(i + 1) + b"".join(a[2] for a in ats)
            if x["kids"]: opened.append(i)
            else: self.after[i] = start + 11 + len(body)
        while opened:
            body += b"\0"
            self.after[opened.pop()] = start + 11 + len(body)
        flush(body)
        self.abbrev += b"\0"

    def request(self):
        return dict(Op="dwarf", Abbrev=self.abbrev.hex(), Info=self.info.hex(), Line=line_table().hex(), Str=self.strs.hex())

    def expected(self):
        s = self.s
        r = [dict(o=0, t="", f=[], c=[self.off[i - 1] for i in s["top"]], p=-1, df=[])]
        for i, x in enumerate(s["dies"]):
            df = [""] + LFILES if x["tag"] == "CompileUnit" and any(a["f"] == "str2" for a in x["at"]) else []
            r.append(dict(o=self.off[i], t=x["tag"], f=self.fields[i], c=[self.off[j - 1] for j in s["ch"][i]], p=self.off[s["par"][i] - 1] if s["par"][i] else 0, df=df))
        return sorted(r, key=lambda e: e["o"])


def generic(exp):
    """the tree as generic maps"""
    def fv(v): return [int(x) for x in v[1]] if v[0] == "bytes" else v[1] == "true" if v[0] == "bool" else v[1] if v[0] in ("string", "offset") else int(v[1])
    es = {}
    for e in exp:
        m = {"Tag": e["t"]}
        if e["p"] >= 0: m["Parent"] = str(e["p"])
        if e["f"]: m["Fields"] = [{"Attr": a, "Class": c, "Val": fv(v)} for a, c, v in e["f"]]
        if e["c"]: m["Children"] = [str(c) for c in e["c"]]
        if e["df"]: m["DeclFiles"] = e["df"]
        es[str(e["o"])] = m
    return {"Entries": es}


def spoil(exp, rnd):
    """(what, generic maps) that miss something or have it with a wrong type"""
    g = generic(exp)
    es = g["Entries"]
    k = rnd.choice(sorted(es))
    e = es[k]
    ch = [("no entries", lambda: g.pop("Entries")), ("no tag", lambda: e.pop("Tag")), ("tag is a number", lambda: e.update(Tag=1)), ("entries are a list", lambda: g.update(Entries=[])),
          ("entry is a text", lambda: es.update({k: "x"})), ("offset is no number", lambda: es.update({"x1": e})), ("children are no list", lambda: e.update(Children={"a": 1})),
          ("child is no offset", lambda: e.update(Children=["q"])), ("child is a map", lambda: e.update(Children=[{}])), ("parent is no offset", lambda: e.update(Parent="zz")), ("parent is a list", lambda: e.update(Parent=[])), ("parent is a number", lambda: e.update(Parent=0)), ("child is a number", lambda: e.update(Children=[0])), ("nothing at all", lambda: g.clear()),
          ("entry is a list", lambda: es.update({k: [e]})), ("field is a list", lambda: e.update(Fields=[["Attr", "Class", "Val"]])), ("file is nothing", lambda: e.update(DeclFiles=["a", None])),
          ("fields are a map", lambda: e.update(Fields={})), ("field is a text", lambda: e.update(Fields=["x"])), ("files are a text", lambda: e.update(DeclFiles="x")), ("file is a number", lambda: e.update(DeclFiles=[1]))]
    if e.get("Fields"):
        f = rnd.choice(e["Fields"])
        ch += 2 * [("field without " + n, lambda n=n: f.pop(n)) for n in ("Attr", "Class", "Val")] + [("attribute is a number", lambda: f.update(Attr=5)), ("class is a number", lambda: f.update(Class=5))]
        if f["Class"] == "ClassReference": ch += [("reference is no offset", lambda: f.update(Val="q"))]
    what, do = rnd.choice(ch)
    do()
    return what, g


WRONG = [[], "x", 5, {"entries": []}, {"entries": "x"}, {"entries": {"x": {}}}, {"entries": {"0": []}}, {"entries": {"0": "e"}}, {"entries": {"0": {"kind": []}}}, {"entries": {"0": {"kind": {"a": 1}}}}, {"entries": {"0": {"fields": {"a": 1}}}},
         {"entries": {"0": {"fields": ["f"]}}}, {"entries": {"0": {"fields": [{"attr": []}]}}}, {"entries": {"0": {"fields": [{"class": {}}]}}}, {"entries": {"0": {"children": 1}}}, {"entries": {"0": {"children": ["q"]}}},
         {"entries": {"0": {"children": [-1]}}}, {"entries": {"0": {"parent": "q"}}}, {"entries": {"0": {"parent": -4}}}, {"entries": {"-1": {}}}, {"entries": {"0": {"declFiles": "x"}}}, {"entries": {"0": {"declFiles": [[]]}}}]


def c22(ctx):
    exe = godriver(ctx)
    lines = ctx.tlc("Dies", dict(MaxDies=5 if ctx.quick else 6, Mode='"all"'), spec="Spec", invariants=["Inv", "Emit"], workers=1, timeout=800)["lines"]
    n = 40 if ctx.quick else 1500
    sims = pmap(lambda k: ctx.tlc("Dies", dict(MaxDies=14 if k % 2 else 40, Mode='"rnd"'), spec="Spec", invariants=["Inv", "Emit"], simulate=n, depth=200, seed=ctx.seed * 100 + k, timeout=800)["lines"], list(range(J)), J)
    lines += [x for s in sims for x in s]
    rnd = random.Random(ctx.seed)
    reqs, want = [], []
    for s in lines:
        e = Encoder(s)
        exp = e.expected()
        reqs.append(e.request()); want.append(("tree", s, exp))
    for kind, s, exp in want[:: max(1, len(want) // (400 if ctx.quick else 6000))]:
        what, g = spoil(exp, rnd)
        reqs.append(dict(Op="bad", Data=g)); want.append(("bad", what, g))
        reqs.append(dict(Op="bad", Data=generic(exp), Ptr=rnd.random() < .4)); want.append(("good", s, exp))
        # a dump that ends early or goes on
        n = rnd.choice([1, 2, 3, rnd.randint(1, 400)])
        if rnd.random() < .5: r, what = dict(Cut=n), "the last %d characters missing" % n
        else:
            m = rnd.choice(["{}", "]", "}", "x", '{"entries":{}}', " 1", "\n{", ","])
            r, what = dict(More=m), "%r after its end" % m
        reqs.append(dict(Op="text", Data=generic(exp), **r)); want.append(("bad text", what, None))
        reqs.append(dict(Op="text", Data=generic(exp), More=rnd.choice(["", " ", "\n", "\t\r\n "]))); want.append(("good", s, exp))
    for t in WRONG:
        reqs.append(dict(Op="text", Json=json.dumps(t))); want.append(("bad text", json.dumps(t), None))
        reqs.append(dict(Op="text", Yaml=json.dumps(t))); want.append(("bad text", json.dumps(t) + " (YAML)", None))
    for t in ["entries: [", "entries:\n  0: {kind: a\n", "\tentries: {}", "entries: {}\nentries: {}\n", "a: b: c"]:
        reqs.append(dict(Op="text", Yaml=t)); want.append(("bad text", t + " (YAML)", None))
    # real files, too
    files = elfs(ctx)
    convcli(ctx, files)
    reqs += [dict(Op="dwarf", Elf=p) for p in files]
    want += [("elf", r["Elf"], None) for r in reqs[len(want):]]
    ans = asks(exe, reqs)
    ctx.cov["traces_validated_against_impl"] += len(reqs)
    for r, (kind, s, exp), a in zip(reqs, want, ans):
        what = None
        if "panic" in a: what = "crash: %s" % a["panic"]
        elif kind == "bad":
            if "err" not in a: what = "generic maps with '%s' are taken as %s" % (s, json.dumps(a["data"])[:500])
        elif kind == "bad text":
            if "err" not in a: what = "a dump with %s is taken as %s" % (s, json.dumps(a["data"])[:500])
        elif "err" in a: what = "reading fails: %s" % a["err"]
        elif kind == "elf":
            if a["tree"]: what = "%s: %s" % (os.path.basename(s), a["tree"])
        elif a["data"] != exp:
            for x, y in zip(a["data"] + [None] * len(exp), exp):
                if x != y: what = "entry is %s instead of %s" % (json.dumps(x), json.dumps(y)); break
            else: what = "%d entries instead of %d" % (len(a["data"]), len(exp))
        if not what and a.get("conv"): what = "conversion changes the data: %s" % "; ".join("%s: %s" % kv for kv in sorted(a["conv"].items())[:3])
        if what: ctx.violate(what, request=r if kind != "elf" else s, model=s if kind == "tree" else None, key="dies-" + kind)
    ctx.part("trees of entries", trees=len(lines), malformed=sum(w[0] == "bad" for w in want), files=sum(w[0] == "elf" for w in want))


CONV = """apiVersion: github.com/aodinokov/metac/v1
kind: goTemplate
metadata:
  name: conv
spec:
  settings:
    path: x
    out: x
  template: |
    {{- $d := dwarfFromElf .path -}}
    {{- $e := dwarfToYamlFile $d (printf "%s.yaml" .out) -}}
    {{- $e = dwarfToJsonFile $d (printf "%s.json" .out) -}}
    {{ dwarfToJson $d }}
    {{ dwarfToJson (dwarfFromYamlFile (printf "%s.yaml" .out)) }}
    {{ dwarfToJson (dwarfFromJsonFile (printf "%s.json" .out)) }}
    {{ dwarfToJson (dwarfFromUnstructured (dwarfToUnstructured $d)) }}
    {{- $e = dwarfToYamlFile (dwarfFromUnstructured (dwarfToUnstructured (dwarfFromJsonFile (printf "%s.json" .out)))) (printf "%s.2.yaml" .out) }}
    {{ dwarfToJson (dwarfFromYamlFile (printf "%s.2.yaml" .out)) }}
    {{ dwarfToJson $d }}
"""


def convcli(ctx, files):
    """the same conversions by the functions that templates have, from the command line"""
    exe = ctx.metac()
    d = ctx.mk("conv")
    put(os.path.join(d, "m", "conv", "module.yaml"), CONV)
    def one(f):
        o = os.path.join(d, os.path.basename(f))
        p = subprocess.run([exe, "run", "conv", "-M", os.path.join(d, "m"), "-s", 'path: "%s"' % f, "-s", 'out: "%s"' % o], capture_output=True, text=True, timeout=300)
        if p.returncode: return "conversions fail: " + p.stderr[-400:]
        L = [json.loads(x) for x in p.stdout.splitlines() if x.strip()]
        if len(L) != 6: return "%d dumps instead of 6" % len(L)
        n = len(L[0].get("entries", {}))
        if n < 100: return "dump has %d entries" % n
        for x, how in zip(L[1:], ("a YAML file", "a JSON file", "generic maps", "a JSON file, generic maps and a YAML file", "dumping it")):
            if x != L[0]:
                k = next((k for k in sorted(set(L[0]["entries"]) | set(x.get("entries", {}))) if L[0]["entries"].get(k) != x.get("entries", {}).get(k)), "?")
                return "%s changes entry %s: %s -> %s" % (how, k, json.dumps(L[0]["entries"].get(k)), json.dumps(x.get("entries", {}).get(k)))
        # both files have what is in memory
        with open(o + ".json") as fh:
            if json.load(fh) != L[0]: return "the JSON file differs from the dump"
    for f, r in zip(files, pmap(one, files, J)):
        if r: ctx.violate("%s: %s" % (os.path.basename(f), r), key="dies-cli")
    ctx.cov["traces_validated_against_impl"] += len(files)
    ctx.part("conversions from the command line", files=len(files))


def elfs(ctx):
    """executables of the C programs of this repository"""
    d = ctx.mk("elfs")
    out = []
    for i, (cc, flags) in enumerate([("gcc", ["-gdwarf-3"]), ("gcc", ["-gdwarf-4"]), ("gcc", ["-gdwarf-5"]), ("clang", ["-gdwarf-4"]), ("clang", ["-gdwarf-5"]), ("gcc", ["-gdwarf-5", "-O2"])]):
        o = os.path.join(d, "e%d" % i)
        r = run([cc, "-w", "-g3", *flags, "-I" + os.path.join(REPO, "include"), "-D_GNU_SOURCE", "-D_METAC_OFF_", "-DMETAC_MODULE_NAME=x", "-Wl,--unresolved-symbols=ignore-all", "-no-pie", "-o", o,
                 *[os.path.join(REPO, "src", f) for f in ("hashmap.c", "iterator.c", "printf_format.c", "entry_db.c")], os.path.join(DRV, "elfmain.c")])
        if r.returncode == 0: out.append(o)
    if len(out) < 4: raise CheckError("sample programs do not build")
    return out
