"""C18/C19: programs of spec/Units.tla, compiled, reflected and compared."""
import json, os, re, shutil, subprocess
from vlib import *
import cgen
from c_scalar import BT

KND = dict(typedef=0, base=1, pointer=2, enum=3, subroutine=4, array=5, const=6, volatile=7, restrict=8, member=15, struct=16, union=17, variable=19, param=20, subprogram=21, block=22, cu=24)
PRO = ['#include "units_drv.h"', "#include <stddef.h>", "#include <string.h>"]
SYN = ("v_", "b_", "n_", "i_")      # of CKBITS
SU = {"s": "struct", "u": "union"}


MIXED = ["dflt", "mymod", "my"]
STYLES = ["unit%d.c", "d%d/unit.c", "a unit%%s %d.c", "unit.x-%d.c", "un\u00eft+%d.c"]


class Prog:
    """a program emitted by the model, and its C text"""
    def __init__(self, p, d, module="dflt", style=0):
        self.p, self.dir, self.module = p, d, module
        self.defs, self.objs, self.locs, self.scopes = p["defs"], p["objs"], p["locs"], p["scopes"]
        self.paths = [os.path.join(d, STYLES[style % len(STYLES)] % (u + 1)) for u in range(len(p["evs"]))]
        self.names = sorted({o["n"] for o in self.objs if o["n"] != "..."} | {"x", "y", "z", "none"})
        self.cols = {}
        self.mods = [MIXED[u % 3] if module == "mixed" else module for u in range(len(p["evs"]))]
        self.links = {(self.O(i)["u"], self.O(i)["n"]): d for i, d in p["mix" if module == "mixed" else "one"]}      # what is asked for -> definition
        self.texts = [self.unit(u + 1) for u in range(len(p["evs"]))]

    def D(self, i): return self.defs[i - 1]
    def O(self, i): return self.objs[i - 1]

    # ------------------------------------------------------------ C text
    def cg(self, t):
        k = t["k"]
        if k == "r":
            d = self.D(t["i"])
            if d["k"] == "t": return {"k": "t", "n": d["n"]}
            if d["n"]: return {"k": "t", "n": {"s": "struct ", "u": "union ", "e": "enum ", "d": SU.get(d["v"] if d["k"] == "d" else "", "") + " "}[d["k"]] + d["n"]}
            return {"k": "t", "n": self.body(d)}
        r = dict(t)
        if "of" in r: r["of"] = self.cg(r["of"])
        if "ps" in r: r["ps"] = [dict(x, of=self.cg(x["of"])) for x in r["ps"]]
        return r

    def decl(self, t, d): return cgen.decl(self.cg(t), d)

    def body(self, d):
        if d["k"] == "e":
            return "enum %s%s{ %s }" % ("__attribute__((packed)) " if d["pk"] else "", d["n"] + " " if d["n"] else "", ", ".join("%s = %s%s" % (v["n"], v["v"], "L" if len(v["v"]) > 9 else "") for v in d["v"]))
        ms = " ".join(self.decl(m["of"], m["n"] + (" : %d" % m["w"] if m["w"] >= 0 else "")) + (" __attribute__((aligned(%d)))" % m["al"] if m["al"] else "") + ";" for m in d["m"])
        at = ", ".join(["packed"] * d["pk"] + ["aligned(%d)" % d["aa"]] * (d["aa"] > 0))
        return "%s %s%s{ %s }" % (SU[d["k"]], "__attribute__((%s)) " % at if at else "", d["n"] + " " if d["n"] else "", ms)

    def tname(self, i):
        d = self.D(i)
        return d["n"] if d["k"] == "t" else {"s": "struct ", "u": "union ", "e": "enum "}[d["k"]] + d["n"]

    def end_of_scope(self, sc):
        """compile-time and run-time checks of the model, uses, and lookups"""
        st, ex = [], []
        for i, d in enumerate(self.defs, 1):
            if d["sc"] != sc or not d["n"] or d["k"] in "td": continue
            T = self.tname(i)
            st.append("_Static_assert(sizeof(%s) == %d && _Alignof(%s) == %d, \"\");" % (T, d["l"]["z"], T, d["l"]["al"]))
            if d["k"] in "su":
                for m, o in zip(d["m"], d["l"]["o"]):
                    if m["n"] and m["w"] < 0: st.append("_Static_assert(offsetof(%s, %s) == %d, \"\");" % (T, m["n"], o // 8))
                    elif m["n"] and d["l"]["z"]: ex.append("CKBITS(%s, %s, %d, %d);" % (T, m["n"], o, m["w"]))
        for i, o in enumerate(self.objs, 1):
            if o["sc"] == sc and o["k"] in ("var", "ext"): ex.append("u_use(&%s);" % o["n"])
            if o["sc"] == sc and o["k"] == "fn":
                ps = [q for q in o["ps"] if q["n"] != "..."]
                ex.append("{ %s %s(%s); }" % (" ".join("static " + self.decl(q["of"], "a%d" % j) + ";" for j, q in enumerate(ps)), o["n"], ", ".join("a%d" % j for j in range(len(ps)))))
        for i, l in enumerate(self.locs, 1):
            if l["sc"] == sc:
                ex += ["u_find(%d, \"%s\", METAC_ENTRY_FROM_DECLLOC(%s, %s));" % (i, n, l["n"], n) for n in self.names]
        return st, ex

    def unit(self, u):
        lines = {}
        evs = self.p["evs"][u - 1]
        for e in evs:
            ev, i = e["ev"], e["i"]
            key = None
            if ev == "def":
                d = self.D(i)
                s = "typedef %s;" % self.decl(d["of"], d["n"]) if d["k"] == "t" else self.body(d) + ";"
            elif ev == "fwd": s = "%s %s;" % (SU[self.D(i)["v"] if self.D(i)["k"] == "d" else self.D(i)["k"]], self.D(i)["n"])
            elif ev in ("var", "ext"):
                o = self.O(i)
                key = i
                s = ("extern " if ev == "ext" else "static " if o["stc"] else "") + self.decl(o["of"], "\x01" + o["n"]) + ";"
            elif ev == "loc": s = "WITH_METAC_DECLLOC(%s, );" % self.locs[i - 1]["n"]
            elif ev == "open":
                o = self.O(i)
                key = i
                ps = [dict(q, of=self.cg(q["of"])) for q in o["ps"]]
                s = ("static " if o["stc"] else "") + cgen.decl({"k": "f", "of": self.cg(o["of"]), "ps": ps}, "\x01" + o["n"]) + " {"
            elif ev == "blk": s = "{"
            elif ev == "close":
                st, ex = self.end_of_scope(i)
                s = " ".join(st + ex) + " }"
            ln = e["ln"]
            cur = lines.get(ln, "")
            cur = cur + (" " if cur else "")
            if key:
                self.cols[key] = len(cur) + s.index("\x01") + 1
                s = s.replace("\x01", "")
            lines[ln] = cur + s
        n = max(lines) if lines else 0
        out = PRO + [lines.get(j, "") for j in range(1, n + 1)]
        fs = next(i for i, s in enumerate(self.scopes, 1) if s["u"] == u and s["k"] == "file")
        st, ex = self.end_of_scope(fs)
        ex += ["u_link(%d, \"%s\", METAC_GSYM_LINK_ENTRY(%s), METAC_GSYM_LINK_NAME(%s).p_data == (void*)&%s);" % (u, n, n, n, n) for lu, n in self.links if lu == u]
        out += ["METAC_GSYM_LINK(%s);" % n for lu, n in self.links if lu == u] + st
        if self.mods.index(self.mods[u - 1]) == u - 1:
            if self.mods[u - 1] != "dflt": out += ["METAC_MODULE(%s);" % self.mods[u - 1]]
            out += ["METAC_DB_LINK();"]
            ex += ["u_db(METAC_DB_LINK_PTR());"]
        out += ["void run_u%d(void) {" % u] + ex + ["}"]
        if u == 1:
            out += ["struct metac_db *get_db(void) { return METAC_DB_LINK_PTR(); }"]
            out += ["void run_all(void) {"] + ["void run_u%d(void); run_u%d();" % (j, j) for j in range(1, len(self.p["evs"]) + 1)] + ["}"]
        return "\n".join(out) + "\n"

    def write(self):
        for p, t in zip(self.paths, self.texts):
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "w") as f: f.write(t)


# --------------------------------------------------------------------- builds
class Builder:
    def __init__(self, ctx):
        self.ctx = ctx
        ctx.metac()
        self.d = ctx.mk("units")
        self.edb = ctx.cc(os.path.join(REPO, "src/entry_db.c"), os.path.join(self.d, "entry_db.o"), base=["-O1", "-w"])
        self.drv = {}
        for m in ("dflt", "mymod", "mixed"):
            self.drv[m] = (ctx.cc(os.path.join(DRV, "units_drv.c"), os.path.join(self.d, "drv_%s.o" % m), base=["-O1", "-w"]), 0)

    def build(self, pr, cc, dw, again=False):
        """-> list of dumps (one per generation)"""
        ctx = self.ctx
        objs, metas = [], []
        for p, m in zip(pr.paths, pr.mods):
            F = ["-DMETAC_MODULE_NAME=" + m]
            try:
                objs.append(ctx.cc(p, p[:-2] + ".o", F, base=["-O0", "-g0", "-w", "-D_GNU_SOURCE"]))
                metas.append(ctx.cc(p, p[:-2] + ".meta.o", F, cc=cc, base=["-O0", "-g3", "-w", "-D_GNU_SOURCE", "-D_METAC_OFF_", "-gdwarf-%d" % dw] + (["-fdebug-compilation-dir=/"] if cc == "clang" else [])))
            except CheckError as e:
                raise CheckError("model program does not compile: %s" % str(e)[-1500:])
        elf = os.path.join(pr.dir, "_meta")
        r = run([cc, "-Wl,--unresolved-symbols=ignore-all", "-no-pie", "-o", elf, *metas, self.drv[pr.module][0], self.edb])
        if r.returncode: raise CheckError("link of model program failed: %s" % r.stdout[-1500:])
        dumps = []
        for g in range(2 if again else 1):
            rc = os.path.join(pr.dir, "reflect%d.c" % g)
            code, err = ctx.reflect(elf, rc)
            if code or not os.path.getsize(rc): raise GenFailure("unit program", err[-1500:])
            try:
                ro = ctx.cc(rc, rc[:-2] + ".o", F, base=["-O0", "-w"])
            except CheckError as e:
                raise GenFailure("unit program", "generated file does not compile: " + str(e)[-1500:])
            exe = os.path.join(pr.dir, "prog%d" % g)
            r = run(["gcc", "-o", exe, *objs, self.drv[pr.module][0], ro, self.edb])
            if r.returncode: raise GenFailure("unit program", "generated file does not link: " + r.stdout[-1500:])
            r = subprocess.run([exe], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60)
            if r.returncode: raise GenFailure("unit program", "the program with its reflection data died: rc %s" % r.returncode)
            dumps.append([json.loads(l) for l in r.stdout.decode().splitlines()])
        return dumps


# ----------------------------------------------------------------- comparison
class Bad(Exception):
    pass


class Compare:
    def __init__(self, pr, dump, gcc, dw):
        self.pr, self.gcc, self.dw = pr, gcc, dw
        self.e = {x["id"]: x for x in dump if "id" in x}
        self.db = {x["db"]: dict((n, es) for n, es in x["items"]) for x in dump if "db" in x}
        self.order = {x["db"]: [n for n, es in x["items"]] for x in dump if "db" in x}
        self.find = {(x["find"], x["name"]): x["e"] for x in dump if "find" in x}
        self.link = {(x["unit"], x["link"]): x for x in dump if "link" in x}
        self.dump = dump
        self.memo = {}
        self.checked = 0

    # types ------------------------------------------------------------
    def match(self, t, e):
        """entry e describes model type t; None or what differs"""
        key = (json.dumps(t, sort_keys=True), e)
        if key in self.memo: return self.memo[key]
        self.memo[key] = None                          # coinductive
        r = self.memo[key] = self.match1(t, e)
        return r

    def match1(self, t, e):
        self.checked += 1
        k = t["k"]
        if k == "v": return None if e == 0 else "void described as entry %s" % self.show(e)
        if e == 0: return "%s described as void" % k
        x = self.e[e]
        def kind(n):
            return None if x["k"] == KND[n] else "kind %d instead of %s" % (x["k"], n)
        if k == "b":
            n, enc, z = BT[t["n"]]
            return kind("base") or (None if (x["n"], x["enc"], x["z"]) == (n.replace("~", " "), enc, z) else "base type %s described as %s" % (t["n"], x))
        if k == "p":
            return kind("pointer") or (None if x["z"] in (0, 8) else "pointer size %d" % x["z"]) or self.match(t["of"], x["t"])
        if k == "q":
            y = t["of"]                      # a repeated qualifier may be dropped
            while y["k"] == "q" or (y["k"] == "r" and self.pr.D(y["i"])["k"] == "t"):
                if y["k"] == "q" and y["q"] == t["q"] and not self.match(t["of"], e): return None
                y = y["of"] if y["k"] == "q" else self.pr.D(y["i"])["of"]
            return kind(t["q"]) or self.match(t["of"], x["t"])
        if k == "a":
            # gcc may qualify an array like its elements
            x = self.strip(t, x)
            r = kind("array") or (None if x["c"] == t["c"] and x["lb"] == 0 else "array of %d elements described as %d (from %d)" % (t["c"], x["c"], x["lb"]))
            if r: return r
            of = t["of"]
            r = self.match(of, x["t"])
            while r and of["k"] == "r" and self.pr.D(of["i"])["k"] == "t" and self.arr(of):      # gcc may describe an array of a typedef'd array as a matrix
                of = self.pr.D(of["i"])["of"]
                if not self.match(of, x["t"]): return None
            return r
        if k == "f":
            return kind("subroutine") or self.match(t["of"], x["t"]) or self.params(t["ps"], x["ps"], False)
        d = self.pr.D(t["i"])
        nm = d["n"] or None
        if d["k"] == "t" and self.arr(t): x = self.strip(t, x)
        if x["n"] != nm: return "type %s described with name %s" % (nm, x["n"])
        if d["k"] == "d":
            return kind(SU[d["v"]]) or (None if x["d"] else "declared-only %s described as defined" % nm)
        if x["d"]: return "%s is described as declaration only" % nm
        if d["k"] == "t" and self.voidish(d["of"]) and self.gcc and x["t"] == 0: return kind("typedef")      # gcc drops qualifiers and other typedefs
        if d["k"] == "t": return kind("typedef") or self.match(d["of"], x["t"])
        if d["k"] == "e":
            return kind("enum") or (None if x["z"] == d["l"]["z"] else "enum size %d, not %d" % (x["z"], d["l"]["z"])) or \
                (None if x["v"] == [[v["n"], int(v["v"])] for v in d["v"]] else "enumerators of %s: %s" % (nm, x["v"]))
        r = kind(SU[d["k"]]) or (None if x["z"] == d["l"]["z"] else "size of %s %d, not %d" % (nm, x["z"], d["l"]["z"]))
        if r: return r
        ms = [(m, o) for m, o in zip(d["m"], d["l"]["o"]) if not (m["w"] >= 0 and not m["n"])]
        if len(ms) != len(x["m"]): return "%s has %d members, described with %d" % (nm, len(ms), len(x["m"]))
        for (m, o), y in zip(ms, x["m"]):
            w = "%s.%s " % (nm, m["n"])
            if y["k"] != KND["member"] or not y["up"]: return w + "is not described as member of its structure"
            if (y["n"] or "") != m["n"]: return w + "described with name %s" % y["n"]
            r = self.match(m["of"], y["t"])
            if r: return w + "type: " + r
            if m["w"] < 0:
                if "bs" in y or "bo" in y or "dbo" in y: return w + "described as bit-field"
                if y["o"] * 8 != o: return w + "at byte %d, described at %d" % (o // 8, y["o"])
            else:
                if y.get("bs") != m["w"]: return w + "has %d bits, described with %s" % (m["w"], y.get("bs"))
                st = 8 * y.get("z", 0)
                pos = y["dbo"] + 8 * y["o"] if "dbo" in y else 8 * y["o"] + st - y["bo"] - y["bs"] if "bo" in y else 8 * y["o"]
                if pos != o: return w + "at bit %d, described at %d" % (o, pos)
        if "al" in x and x["al"] != d["l"]["al"]: return "alignment of %s %d, not %d" % (nm, x["al"], d["l"]["al"])
        if d["aa"] and "al" not in x: return "alignment of %s is not described" % nm
        for (m, o), y in zip(ms, x["m"]):
            if m["al"] > 16 and "al" not in y and m["of"]["k"] in "bp": return "alignment of %s.%s is not described" % (nm, m["n"])
            if not m["al"] and "al" in y and m["of"]["k"] in "bp": return "alignment of %s.%s is described as %d" % (nm, m["n"], y["al"])
            if m["al"] and m["of"]["k"] in "bp" and y.get("al", m["al"]) != m["al"]: return "alignment of %s.%s is %d, described as %d" % (nm, m["n"], m["al"], y["al"])
        return None

    def voidish(self, t):
        while t["k"] == "q" or (t["k"] == "r" and self.pr.D(t["i"])["k"] == "t"): t = t["of"] if t["k"] == "q" else self.pr.D(t["i"])["of"]
        return t["k"] == "v"

    def arr(self, t):
        while t["k"] == "q" or (t["k"] == "r" and self.pr.D(t["i"])["k"] == "t"): t = t["of"] if t["k"] == "q" else self.pr.D(t["i"])["of"]
        return t["k"] == "a"

    def strip(self, t, x):
        q = {"const": 0, "volatile": 0}
        y = self.elem(t)
        while y["k"] == "q" or (y["k"] == "r" and self.pr.D(y["i"])["k"] == "t"):
            if y["k"] == "q": q[y["q"]] = 1
            y = y["of"] if y["k"] == "q" else self.pr.D(y["i"])["of"]
        while x["k"] in (KND["const"], KND["volatile"]) and q["const" if x["k"] == KND["const"] else "volatile"] and x["t"]: x = self.e[x["t"]]
        return x

    def elem(self, t):
        while t["k"] == "a" or (t["k"] == "r" and self.pr.D(t["i"])["k"] == "t"): t = t["of"] if t["k"] == "a" else self.pr.D(t["i"])["of"]
        return t

    def params(self, ps, xs, named):
        if len(ps) != len(xs): return "%d parameters, described with %d" % (len(ps), len(xs))
        for p, x in zip(ps, xs):
            if x["k"] != KND["param"] or not x["up"]: return "parameter has kind %d or is not described as its function's" % x["k"]
            if (p["n"] == "...") != bool(x["x"]): return "unspecified parameters"
            if p["n"] != "...":
                if named and p["n"] != x["n"]: return "parameter %s described as %s" % (p["n"], x["n"])
                r = self.match(p["of"], x["t"])
                if r: return "parameter %s: %s" % (p["n"], r)
        return None

    def show(self, e): return json.dumps({k: v for k, v in self.e[e].items() if k not in ("par", "h")})[:300]

    # objects ------------------------------------------------------------
    def obj(self, o, e):
        x = self.e[e]
        n = o["n"]
        if o["k"] == "fn":
            if x["k"] != KND["subprogram"] or x["n"] != n: return "function %s described as %s" % (n, self.show(e))
            return self.match(o["of"], x["t"]) or self.params(o["ps"], x["ps"], True) or (None if bool(x["x"]) == (not o["stc"]) else "linkage of function %s" % n)
        if x["k"] != KND["variable"] or x["n"] != n: return "variable %s described as %s" % (n, self.show(e))
        file = self.pr.scopes[o["sc"] - 1]["k"] == "file"
        return self.match(o["of"], x["t"]) or (None if bool(x["x"]) == (file and not o["stc"]) or not file else "linkage of variable %s" % n)

    def model_scope(self, sc):
        """objects of a scope"""
        pr = self.pr
        # clang moves static variables of blocks to the function
        sub = {sc} if self.gcc else self.under(sc)
        return [o for o in pr.objs if o["sc"] in sub and o["k"] in ("var", "fn")]

    def under(self, sc):
        r = {sc}
        for i, s in enumerate(self.pr.scopes, 1):
            if s["k"] == "blk" and s["up"] == sc: r |= self.under(i)
        return r

    def blocks(self, sc):
        """nested blocks that declare something, in order"""
        pr, r = self.pr, []
        for i, s in enumerate(pr.scopes, 1):
            if s["k"] == "blk" and s["up"] == sc:
                if any(o["sc"] == i and o["k"] == "var" for o in pr.objs) or any(l["sc"] == i for l in pr.locs): r.append(i)
                else: r += self.blocks(i)
        return r

    def xblocks(self, h):
        r = []
        for it in h:
            x = self.e[it["e"]]
            if x["k"] == KND["block"]:
                vs = [self.e[y["e"]]["n"] for y in x["h"] if self.e[y["e"]]["k"] == KND["variable"]]
                if "v_" in vs: continue              # CKBITS of the driver
                if vs: r.append(it["e"])
                else: r += self.xblocks(x["h"])
        return r

    def scope(self, sc, e, u, cu, skip=()):
        pr = self.pr
        x = self.e[e]
        items = {}
        own = {it["e"]: e for it in x["h"]}
        hs = list(x["h"])
        if not self.gcc and x["k"] == KND["subprogram"]:
            hs = [it for it in self.subtree(e, own) if self.e[it["e"]]["n"] not in SYN]
        for it in hs:
            y = self.e[it["e"]]
            if not y["n"] and y["k"] == KND["variable"] and not self.gcc: continue      # clang describes string literals as variables
            if y["k"] in (KND["variable"], KND["subprogram"]) and not y["d"] and not (y["n"] or "").startswith(("metac_", "run_u", "get_db", "run_all")):
                items.setdefault(y["n"], []).append(it)
        for o in self.model_scope(sc):
            its = items.pop(o["n"], [])
            if not self.gcc and scopes_fn(pr, sc):
                hit = [it for it in its if it.get("line") == o["ln"] + len(PRO)]
                if len(hit) > 1:                  # same name and line in different blocks
                    hit = [it for it in hit if self.obj(o, it["e"]) is None][:1]
                if [it for it in its if it not in hit]: items[o["n"]] = [it for it in its if it not in hit]
                its = hit
            if len(its) != 1: raise Bad("%s %s of unit %d (line %d) is described %d times in its scope" % (o["k"], o["n"], u, o["ln"], len(its)))
            it = its[0]
            r = self.obj(o, it["e"])
            if r: raise Bad("unit %d line %d, %s: %s" % (u, o["ln"], o["n"], r))
            i = next(j for j, q in enumerate(pr.objs, 1) if q is o)
            if it.get("line") != o["ln"] + len(PRO): raise Bad("unit %d: %s is declared on line %d, described on %s" % (u, o["n"], o["ln"] + len(PRO), it.get("line")))
            if "file" not in it or cu["files"][it["file"]] != pr.paths[u - 1]: raise Bad("unit %d: %s described in another file" % (u, o["n"]))
            if self.gcc and it.get("col") != pr.cols[i]: raise Bad("unit %d: %s is declared in column %d, described in %s" % (u, o["n"], pr.cols[i], it.get("col")))
            if self.e[it["e"]]["par"] != [own.get(it["e"], e)]: raise Bad("unit %d: %s has a wrong parent" % (u, o["n"]))
            o["_e"] = it["e"]
            self.checked += 1
            if o["k"] == "fn": self.scope(o["own"], it["e"], u, cu)
        if items: raise Bad("unit %d: variables %s are described but not declared in that scope" % (u, sorted(map(str, items))))
        for it in x["h"]:                    # declarations: optional, but right
            y = self.e[it["e"]]
            if y["k"] == KND["variable"] and y["d"] and not (y["n"] or "").startswith("metac_"):
                c = [o for o in pr.objs if o["sc"] == sc and o["k"] == "ext" and o["n"] == y["n"]]
                if not c or (self.match(c[0]["of"], y["t"]) and not (c[0]["of"]["k"] == "a" and y["t"] == (self.e.get(c[0].get("_e"), {}).get("t")))):
                    raise Bad("unit %d: declaration of %s described as %s" % (u, y["n"], c and self.match(c[0]["of"], y["t"])))
        a, b = self.blocks(sc), self.xblocks(x["h"])
        if scopes_fn(pr, sc) and self.gcc:
            if len(a) != len(b): raise Bad("unit %d: %d blocks described as %d" % (u, len(a), len(b)))
            for s, y in zip(a, b): self.scope(s, y, u, cu)

    # whole program --------------------------------------------------------
    def reach(self):
        pr, seen = self.pr, set()
        def go(t):
            if t["k"] == "r":
                if t["i"] in seen: return
                seen.add(t["i"])
                d = pr.D(t["i"])
                if not self.voidish(d["of"]): go(d["of"])
                for m in d["m"]: go(m["of"])
            if t["k"] == "a":
                t = t["of"]
                while t["k"] == "r" and pr.D(t["i"])["k"] == "t" and self.arr(t): t = pr.D(t["i"])["of"]
                return go(t)
            if t["k"] in ("p", "q", "f"): go(t["of"])
            for q in t.get("ps", []): go(q["of"])
        for o in pr.objs:
            if o["k"] in ("var", "fn"):
                go(o["of"])
                for q in o["ps"]: go(q["of"])
        return seen

    def subtree(self, e, own=None):
        out = []
        for it in self.e[e].get("h", []):
            out.append(it)
            if own is not None: own[it["e"]] = e
            if self.e[it["e"]]["k"] in (KND["subprogram"], KND["block"]) or (own is None and it["e"] != e and len(out) < 100000): out += self.subtree(it["e"], own)
        return out

    def types(self):
        pr = self.pr
        lists = {"s": "structs", "u": "unions", "e": "enums", "t": "typedefs"}
        used = self.reach()
        cus = {}
        for n, es in self.db["compile_units"].items():
            for e in es: cus[self.e[e]["n"]] = e
        for i in used:
            d = pr.D(i)
            t = {"k": "r", "i": i}
            if d["n"] and d["k"] in lists:
                es = self.db[lists[d["k"]]].get(d["n"], [])
                if not any(self.match(t, e) is None for e in es):
                    raise Bad("%s %s of unit %d (line %d) is not among the %d described ones: %s" % (d["k"], d["n"], d["u"], d["ln"], len(es), [self.match(t, e) for e in es]))
                its = [it for it in self.subtree(self.cus[d["u"]]) if self.e[it["e"]]["n"] == d["n"] and not self.e[it["e"]]["d"] and self.match(t, it["e"]) is None]
                if not any(it.get("line") == d["ln"] + len(PRO) for it in its):
                    raise Bad("%s %s of unit %d is defined on line %d, described on %s" % (d["k"], d["n"], d["u"], d["ln"] + len(PRO), [it.get("line") for it in its]))
                self.checked += 1
        for k, l in lists.items():
            for n, es in self.db[l].items():
                if not n: continue
                cand = [i for i, d in enumerate(pr.defs, 1) if d["n"] == n and (d["k"] == k or (d["k"] == "d" and SU[d["v"]] == SU.get(k)))]
                if not cand: continue
                for e in es:
                    if self.e[e]["d"]: continue
                    if not any(self.match({"k": "r", "i": i}, e) is None for i in cand):
                        raise Bad("%s %s is described in a way that fits no definition: %s" % (l, n, [self.match({"k": "r", "i": i}, e) for i in cand]))

    def run(self):
        pr = self.pr
        for x in self.dump:
            if "model" in x: raise CheckError("bit-field layout of the model differs from the compiler's: %s" % x["model"])
            if "nodb" in x: raise Bad("METAC_DB_LINK_PTR() is NULL")
            if "otherdb" in x: raise Bad("the lists of all entries of two modules differ")
            if "version" in x and x["version"] != 0: raise Bad("db version %d" % x["version"])
        for k, o in self.order.items():
            if len(set(o)) != len(o): raise Bad("a name occurs twice in db list " + k)
        cus = {}
        for n, es in self.db["compile_units"].items():
            for e in es:
                for u, p in enumerate(pr.paths, 1):
                    if self.e[e]["n"] == p: cus.setdefault(u, []).append(e)
        self.cus = {}
        for u in range(1, len(pr.paths) + 1):
            if len(cus.get(u, [])) != 1: raise Bad("unit %d is described %d times" % (u, len(cus.get(u, []))))
            self.cus[u] = cus[u][0]
            lang = 12 if self.gcc and self.dw < 5 else 29     # C99 or C11
            if self.e[self.cus[u]]["lang"] != lang: raise Bad("unit %d is described in language %d" % (u, self.e[self.cus[u]]["lang"]))
        for o in pr.objs: o.pop("_e", None)
        for u in range(1, len(pr.paths) + 1):
            fs = next(i for i, s in enumerate(pr.scopes, 1) if s["u"] == u and s["k"] == "file")
            self.scope(fs, self.cus[u], u, self.e[self.cus[u]])
        self.types()
        self.family()
        self.index()
        for l, k in (("variables", "var"), ("subprograms", "fn")):
            for o in pr.objs:
                if o["k"] == k and o["_e"] not in self.db[l].get(o["n"], []): raise Bad("%s %s is missing in the db list" % (k, o["n"]))

    def family(self):
        """scopes list what is declared in them, and every description names the scopes that list it"""
        up = {}
        for e, x in self.e.items():
            for it in x.get("h", []): up.setdefault(it["e"], set()).add(e)
        for e, x in self.e.items():
            par = [y for y in x["par"] if not (self.e[y]["k"] == KND["array"] and self.e[y]["t"] == e)]     # rows of a matrix belong to it
            if up.get(e, set()) - set(par) or (x["n"] and set(par) - up.get(e, set())):     # gcc puts unnamed types into function types, which list nothing
                raise Bad("%s belongs to %s, but %s list it" % (self.show(e), [self.show(y) for y in x["par"]][:3], [self.show(y) for y in up.get(e, ())][:3]))

    def index(self):
        """the lists of everything hold each named description under its name, and nothing else"""
        for l, k in (("base_types", "base"), ("enums", "enum"), ("typedefs", "typedef"), ("structs", "struct"), ("unions", "union"), ("variables", "variable"), ("subprograms", "subprogram"), ("compile_units", "cu")):
            for e, x in self.e.items():
                if x["k"] == KND[k] and e not in self.db[l].get(x["n"] or "", []): raise Bad("%s is missing in db list %s" % (self.show(e), l))
            for n, es in self.db[l].items():
                for e in es:
                    if self.e[e]["k"] != KND[k] or (self.e[e]["n"] or "") != n: raise Bad("db list %s has %s under %s" % (l, self.show(e), n))

    # locations and links (C18) ---------------------------------------------
    def lookups(self):
        pr, n = self.pr, 0
        hit = {(l, pr.O(i)["n"]): i for l, i in pr.p["find"]}
        for li, l in enumerate(pr.locs, 1):
            if not self.gcc and scopes_fn(pr, l["sc"]): continue      # see model_scope
            chain, s = [], l["sc"]
            while s: chain.append(s); s = pr.scopes[s - 1]["up"]
            for nm in pr.names:
                got = self.find.get((li, nm))
                if got is None: raise CheckError("no answer for location %d %s" % (li, nm))
                want = hit.get((li, nm))
                n += 1
                where = "unit %d line %d, location %s, name %s" % (l["u"], l["ln"], l["n"], nm)
                if want:
                    if got != pr.O(want)["_e"]: raise Bad("%s finds %s instead of the declaration there" % (where, self.show(got) if got else "nothing"))
                elif got:
                    # an entity of an enclosing scope on the very same line may be offered as well
                    ok = [o for o in pr.objs if o["n"] == nm and o["u"] == l["u"] and o["ln"] == l["ln"] and o["sc"] in chain and o.get("_e") == got]
                    ext = [o for o in pr.objs if o["k"] == "ext" and o["n"] == nm and o["u"] == l["u"] and o["ln"] == l["ln"] and self.e[got]["d"]]
                    if not ok and not ext: raise Bad("%s finds %s although nothing of that name is declared there" % (where, self.show(got)))
        for (u, nm), d in pr.links.items():
            x = self.link.get((u, nm))
            if x is None: raise CheckError("no answer for link " + nm)
            n += 1
            d = pr.O(d)
            if not x["e"]: raise Bad("link of %s gives no entry" % nm)
            if not x["ok"]: raise Bad("link of %s has a wrong address" % nm)
            if d["u"] == u and x["e"] != d["_e"]: raise Bad("link of %s gives %s, not its definition" % (nm, self.show(x["e"])))
            r = self.obj(d, x["e"])
            if r: raise Bad("link of %s: %s" % (nm, r))
        return n


def scopes_fn(pr, sc):
    return pr.scopes[sc - 1]["k"] != "file"


CONF = [("gcc", 5, "dflt"), ("clang", 5, "dflt"), ("gcc", 4, "mymod"), ("gcc", 5, "mymod"), ("clang", 4, "mymod"), ("gcc", 3, "dflt"), ("gcc", 5, "mixed"), ("clang", 5, "mixed")]


def programs(ctx, n, steps, units, k0=0, tag=""):
    """simulates n programs in J runs"""
    per = max(1, n // J)
    def sim(k):
        r = ctx.tlc("Units", dict(Steps=str(steps), NUnits=str(units)), invariants=["LayoutSound", "NamesUnique", "FindUnique", "OwnRefs", "OneDefinition", "Emit"],
                    simulate=per, depth=units * (steps + 14) + 4, workers=1, seed=ctx.seed * 1000 + k0 + k, timeout=800, heap="2g")
        return r["lines"]
    return [p for ls in pmap(sim, list(range(J)), J) for p in ls]


def run_programs(ctx, progs, what, confs=None):
    """what: 'C19' or 'C18'; confs: each program with each of these compilers, otherwise with one of CONF"""
    b = Builder(ctx)
    tot = dict(programs=0, types=0, lookups=0, generations=0)
    def one(ip):
        i, p, (cc, dw, mod) = ip
        d = ctx.mk("units/p%d" % i)
        pr = Prog(json.loads(json.dumps(p)) if confs else p, d, mod, i // 3)
        pr.write()
        try:
            dumps = b.build(pr, cc, dw, again=(what == "C19" and i % 7 == 0))
            n = m = 0
            for dump in dumps:
                c = Compare(pr, dump, cc == "gcc", dw)
                c.run()
                n += c.checked
                if what == "C18": m += c.lookups()
            with LOCK:
                ctx.cov["traces_validated_against_impl"] += 1
                tot["programs"] += 1; tot["types"] += n; tot["lookups"] += m; tot["generations"] += len(dumps)
            shutil.rmtree(d, ignore_errors=True)
            return None
        except (Bad, GenFailure) as e:
            return i, cc, dw, mod, e, pr
    for r in pmap(one, [(i, p, CONF[i % len(CONF)]) for i, p in enumerate(progs)] if not confs else [(i * len(confs) + k, p, c) for i, p in enumerate(progs) for k, c in enumerate(confs)], J):
        if r:
            i, cc, dw, mod, e, pr = r
            ctx.violate("%s (debug information by %s, DWARF %d, module %s)" % (e if isinstance(e, Bad) else "generation fails: %s" % e, cc, dw, mod),
                        units={os.path.relpath(p, pr.dir): t for p, t in zip(pr.paths, pr.texts)}, model=pr.p, compiler=cc, dwarf=dw, module=mod)
    return tot


def c19(ctx):
    n, steps = ((128, 26) if ctx.tier == "quick" else (2400, 34))
    twins = ctx.tlc("Twins", dict(Steps="0", NUnits="2"), spec="TSpec", invariants=["LayoutSound", "NamesUnique", "OwnRefs", "OneDefinition", "OneChange", "Emit"], workers=1, timeout=800)["lines"]
    if len(twins) < 30: raise CheckError("%d pairs of units" % len(twins))
    # bit positions are described in different ways by the versions of the format
    t = run_programs(ctx, twins, "C19", [("gcc", 5, "dflt"), ("gcc", 4, "mymod"), ("gcc", 3, "dflt"), ("clang", 5, "dflt"), ("clang", 4, "dflt")][:2 if ctx.quick else 5])
    ctx.part("units with types that differ in one thing", **t)
    progs = programs(ctx, n, steps, 3)
    t = run_programs(ctx, progs, "C19")
    ctx.part("generated programs", **t)
    k = 1 if ctx.quick else 8
    t = run_programs(ctx, programs(ctx, 40 * k, 3, 1, k0=800) + programs(ctx, 16 * k, 2, 2, k0=850), "C19")
    ctx.part("small programs", **t)
    return t


# ----------------------------------------------------- C18: the location tables
def bstr(x): return "x" + "".join("%02x" % c for c in x)


def tla(s): return "<<" + ", ".join(str(c) for c in s.encode("utf-8")) + ">>"


def tlas(ss): return "{" + ", ".join(map(tla, ss)) + "}"


def tlaq(ss): return "<<" + ", ".join(map(tla, ss)) + ">>"


FS = ["/s/a.c", "/s/a.cc", "/s/ab.c", "/s/a/c", "/s/A.c", "/t", "/s/a.c\u00e9"]
LS = ["metac__dflt_entry_l_1", "metac__dflt_entry_l_10", "metac__dflt_entry_l_2", "metac__dflt_entry_l", "metac__mod_entry_l_1", "metac__dflt_entry_lb_1", "m"]
NS = ["x", "xx", "X", "x1", "_x", "y", "\u00e9"]


def tables(ctx):
    exe = ctx.driver_plain("locdb", ["locdb_drv.c"], libs=[ctx.cc(os.path.join(REPO, "src/entry_db.c"), os.path.join(ctx.mk("locdb"), "entry_db.o"))], wrap=False)
    cfg = [(2, 2, 2, 2), (2, 2, 3, 1), (1, 1, 7, 2), (1, 7, 1, 1), (7, 1, 1, 1), (3, 3, 1, 1)]
    if not ctx.quick: cfg += [(3, 3, 1, 2), (2, 2, 3, 2), (3, 1, 4, 1), (1, 3, 4, 1), (3, 2, 2, 1), (7, 2, 1, 1)]
    def part(c):
        nf, nl, nn, times = c
        import random
        rnd = random.Random("%s %s" % (ctx.seed, c))
        fs, ls, ns = rnd.sample(FS, nf), rnd.sample(LS, nl), rnd.sample(NS, nn)
        qf = FS + [""] if nf == 7 else fs + rnd.sample([x for x in FS + [""] if x not in fs], 2)
        ql = LS + [""] if nl == 7 else ls + rnd.sample([x for x in LS + [""] if x not in ls], 2)
        qn = NS + [""] if nn == 7 else ns + rnd.sample([x for x in NS + [""] if x not in ns], 2)
        r = ctx.tlc("Locations", dict(Files=tlas(fs), Locs=tlas(ls), Names=tlas(ns), QFiles=tlaq(qf), QLocs=tlaq(ql), QNames=tlaq(qn), Times=times),
                    spec="Spec", invariants=["Halving", "Emit"], workers=1, timeout=800)
        inp, want = [], []
        for s in r["lines"]:
            inp.append("d %d " % len(s["tab"]) + " ".join("%s %d %s" % (bstr(f["f"]), len(f["l"]), " ".join("%s %d %s" % (bstr(l["l"]), len(l["n"]),
                       " ".join("%s %d %d" % (bstr(n["n"]), n["c"], n["x"]) for n in l["n"])) for l in f["l"])) for f in s["tab"]))
            for f, a in zip(qf, s["ans"]):
                for l, b in zip(ql, a):
                    for n, x in zip(qn, b):
                        inp.append("? %s %s %s" % tuple(bstr(v.encode()) for v in (f, l, n)))
                        want.append((s["tab"], (f, l, n), x))
        inp.append("n %s %s" % (bstr(ls[0].encode()), bstr(ns[0].encode())))
        p = subprocess.run([exe], input="\n".join(inp) + "\n", capture_output=True, text=True, timeout=600, env=dict(os.environ, ASAN_OPTIONS="detect_leaks=0"))
        out = p.stdout.split()
        with LOCK:
            ctx.cov["traces_validated_against_impl"] += len(r["lines"])
        for (tab, q, x), o in zip(want, out):
            if int(o) != x:
                ctx.violate("lookup of file %r, location %r, name %r gives %s, registered there is %s" % (*q, o if int(o) else "nothing", x or "nothing (or more than one)"),
                            table=tab, query=q, key="tables")
                break
        else:
            if len(out) != len(want) + 1: ctx.violate("lookup died after %d answers of %d: %s" % (len(out), len(want) + 1, p.stderr[-800:]), key="tables-died")
            elif out[-1] != "1": ctx.violate("lookup with a missing argument does not give NULL", key="tables-null")
        return len(r["lines"]), len(want)
    res = pmap(part, cfg, J)
    ctx.part("location tables", databases=sum(r[0] for r in res), lookups=sum(r[1] for r in res))


def c18(ctx):
    tables(ctx)
    n, steps = ((96, 26) if ctx.quick else (2000, 34))
    t = run_programs(ctx, programs(ctx, n, steps, 3, k0=500), "C18")
    ctx.part("generated programs", **t)
