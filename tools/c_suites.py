"""C24: generated test runners."""
import os, shutil, subprocess
from vlib import *


def unit(ds, u, log):
    r = ['#include <stdio.h>', '#include <stdlib.h>', '#include "metac/test.h"', 'extern void note(const char *);']
    for i, d in enumerate(ds):
        if d["u"] != u: continue
        n = d["n"]
        if d["k"] == "test":
            r.append('METAC_START_TEST(%s) { note("%s"); ck_assert_int_eq(%d, 1); } END_TEST' % (n, n, 1 if d["ok"] else 2))
        elif d["k"] == "bulk":
            r += ['METAC_START_TEST(bulk%d) { note("bulk%d"); ck_assert_int_eq(%d, 1); } END_TEST' % (j, j, 1 if d["ok"] else 2) for j in range(d["c"])]
        elif d["k"] == "extern":
            r.append("extern const TTest * METAC_REQUEST(test, %s);\nconst void *use%d(void) { return METAC_REQUEST(test, %s); }" % (n, i, n))
        elif n == "local": r.append("int local%d(void) { static int metac__test_local; int metac__test_auto = metac__test_local++; return metac__test_auto; }" % i)
        elif n == "member": r.append("struct s%d { int metac__test_member; } v%d;" % (i, i))
        elif n == "function": r.append("int metac__test_function(void) { note(\"!function\"); return 0; }")
        elif n == "type": r.append("typedef struct metac__test_tag { int x; } metac__test_type; metac__test_type vt%d;" % i)
        else: r.append("int %s = 1;" % n)
    return "\n".join(r) + "\n"


NOTE = '''#include <stdio.h>
#include <stdlib.h>
void note(const char *s) { FILE *f = fopen(getenv("RUNLOG"), "a"); if (f) { fprintf(f, "%s\\n", s); fclose(f); } }
'''


def c24(ctx):
    metac = ctx.metac()
    if ctx.quick: A, n = [], 16
    else: A, n = ctx.tlc("Suites", dict(Units=2, MaxDecls=4, Mode='"all"'), spec="Spec", invariants=["Inv", "Emit"], workers=1, timeout=800)["lines"], 150
    # the complete graph of small programs is always checked, its programs are sampled in quick runs
    if ctx.quick:
        A = ctx.tlc("Suites", dict(Units=2, MaxDecls=3, Mode='"all"'), spec="Spec", invariants=["Inv", "Emit"], workers=1, timeout=800)["lines"]
        A = A[ctx.seed % 7::max(1, len(A) // 40)]
    else: A = A[::max(1, len(A) // 1500)]
    sims = pmap(lambda k: ctx.tlc("Suites", dict(Units=3, MaxDecls=5 + 4 * k, Mode='"rnd"'), spec="Spec", invariants=["Inv", "Emit"], simulate=n, depth=100, seed=ctx.seed * 100 + k, timeout=800)["lines"], list(range(J)), J)
    B = ctx.tlc("Suites", dict(Units=2, MaxDecls=2, Mode='"bulk"'), spec="Spec", invariants=["Inv", "Emit"], workers=1, timeout=800)["lines"]
    if ctx.quick: B = [x for x in B if x["fails"] in (256, 257, 512) or len(x["decls"]) == 0][:8]
    progs = B + A + [x for s in sims for x in s]
    d0 = ctx.mk("suites")
    with open(os.path.join(d0, "note.c"), "w") as f: f.write(NOTE)
    with open(os.path.join(d0, "dummy.c"), "w") as f: f.write("int main(void) { return 0; }\n")
    inc = ["-I" + os.path.join(REPO, "include"), "-w"]
    for x in ("note", "dummy"):
        if run(["gcc", "-c", os.path.join(d0, x + ".c"), "-o", os.path.join(d0, x + ".o")]).returncode: raise CheckError("no C compiler")
    LIBS = ["-lcheck", "-lsubunit", "-lm", "-lrt", "-lpthread"]
    probe = os.path.join(d0, "probe")
    with open(probe + ".c", "w") as f: f.write("#include <check.h>\nint main(void) { return suite_create(\"x\") == 0; }\n")
    if run(["gcc", probe + ".c", "-o", probe, *LIBS]).returncode: LIBS.remove("-lsubunit")
    def one(j):
        i, s = j
        d = os.path.join(d0, "p%d" % i)
        os.makedirs(d)
        try: return prog(i, s, d)
        finally: shutil.rmtree(d, ignore_errors=True)
    def prog(i, s, d):
        cc, dw = [("gcc", "-gdwarf-5"), ("gcc", "-gdwarf-4"), ("gcc", "-gdwarf-3"), ("clang", "-gdwarf-4"), ("clang", "-gdwarf-5")][i % 5]
        objs = []
        for u in (1, 2, 3):
            c = os.path.join(d, "u%d.c" % u)
            with open(c, "w") as f: f.write(unit(s["decls"], u, d))
            o = c[:-2] + ".o"
            r = run([cc, "-g3", dw, *(["-fdebug-compilation-dir=/"] if cc == "clang" else []), *inc, "-c", c, "-o", o])
            if r.returncode: return "!" + r.stdout[-800:]
            objs.append(o)
        meta, rc = os.path.join(d, "meta"), os.path.join(d, "runner.c")
        r = run(["gcc", *objs, os.path.join(d0, "note.o"), os.path.join(d0, "dummy.o"), "-o", meta, *LIBS])
        if r.returncode: return "!" + r.stdout[-800:]
        p = subprocess.run([metac, "run", "metac-test-gen", "-s", 'path_type: "elf"', "-s", 'path: "%s"' % meta], cwd=REPO, capture_output=True, timeout=120)
        if p.returncode: return "the runner is not generated: " + p.stderr.decode(errors="replace")[-500:]
        with open(rc, "wb") as f: f.write(p.stdout)
        exe = os.path.join(d, "runner")
        r = run(["gcc", *inc, rc, *objs, os.path.join(d0, "note.o"), "-o", exe, *LIBS])
        if r.returncode: return "the generated runner does not compile: " + r.stdout[-800:]
        want = sorted([x["n"] for x in s["decls"] if x["k"] == "test"] + ["bulk%d" % j for x in s["decls"] if x["k"] == "bulk" for j in range(x["c"])])
        for fork in ("no", "yes"):
            log = os.path.join(d, "log." + fork)
            open(log, "w").close()
            p = subprocess.run([exe], env=dict(os.environ, CK_FORK=fork, RUNLOG=log, CK_VERBOSITY="minimal"), capture_output=True, text=True, errors="replace", timeout=120)
            got = sorted(open(log).read().split())
            if got != want: return "tests run: %s instead of %s" % (str(got)[:600], str(want)[:600])
            if (p.returncode != 0) != (s["fails"] > 0): return "exit status is %d with %d failing tests" % (p.returncode, s["fails"])
    broken = 0
    for (i, s), r in zip(enumerate(progs), pmap(one, list(enumerate(progs)), J)):
        if not r: continue
        if r[0] == "!":
            raise CheckError("sample program does not compile: " + r)
        ctx.violate("%s (declarations %s)" % (r, [(x["u"], x["k"], x["n"], x["ok"]) for x in s["decls"]]), program=s, key="suite")
    ctx.cov["traces_validated_against_impl"] += len(progs)
    ctx.part("test programs", programs=len(progs), tests=sum(x["k"] == "test" for s in progs for x in s["decls"]))
