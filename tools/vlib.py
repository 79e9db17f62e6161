"""Shared machinery of the checks: scratch builds of /repo, TLC runs, driver
processes, the state-graph walker, replay files, known findings, evidence."""
import atexit, collections, concurrent.futures, hashlib, json, os, random, re
import select, shutil, signal, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
DRV = os.path.join(VERIF, "drivers")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
J = min(8, os.cpu_count() or 4)


LOCK = threading.Lock()


def pmap(fn, items, n=4):
    """fn over items on n threads, results in order."""
    with concurrent.futures.ThreadPoolExecutor(n) as ex:
        return list(ex.map(fn, items))


class CheckError(Exception):
    """The check itself could not decide (tool or model failure)."""


class Violation(Exception):
    def __init__(self, what, replay):
        super().__init__(what)
        self.what, self.replay = what, replay


def run(cmd, timeout=600, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                          timeout=timeout, text=True, errors="replace", **kw)


# ------------------------------------------------------------------ context
class Ctx:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.quick = tier == "quick"
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.rng = random.Random(self.seed * 1000003 + sum(map(ord, prop)))
        self.t0 = time.time()
        self.scratch = tempfile.mkdtemp(prefix="metac-verif-")
        atexit.register(shutil.rmtree, self.scratch, True)
        self.cov = collections.OrderedDict(states=0, transitions=0, traces_validated_against_impl=0)
        self.samples = []
        self.assumptions = []
        self.violations = []     # (what, replay dict)
        self.known_hit = []
        self.parts = collections.OrderedDict()
        self.known = [k for k in load_known() if k.get("property") == prop and k.get("status") == "known"]
        self._metac = self._libs = None
        self._n = 0

    def path(self, *a):
        return os.path.join(self.scratch, *a)

    def mk(self, name):
        d = self.path(name)
        os.makedirs(d, exist_ok=True)
        return d

    def left(self, budget):
        return budget - (time.time() - self.t0)

    def sample(self, x, cap=6):
        if len(self.samples) < cap:
            self.samples.append(x)

    def part(self, name, **kw):
        d = self.parts.setdefault(name, collections.OrderedDict())
        for k, v in kw.items():
            if isinstance(v, (int, float)) and not isinstance(v, bool):
                d[k] = d.get(k, 0) + v
            else:
                d[k] = v

    def log(self, *a):
        print("[%s %6.1fs]" % (self.prop, time.time() - self.t0), *a, flush=True)

    # -------------------------------------------------------------- verdicts
    def violate(self, what, **replay):
        """Record one failing case, unless the known-findings file lists it."""
        key = replay.get("key", what)
        for k in self.known:
            if re.fullmatch(k["match"], str(key)):
                if k["id"] not in [x["id"] for x in self.known_hit]:
                    self.known_hit.append(k)
                return False
        self.violations.append((what, replay))
        if len(self.violations) >= 25:
            raise StopCheck()
        return True

    def finish(self):
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level="model_checking",
                  coverage=dict(self.cov, samples=self.samples, parts=self.parts),
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2),
                  violations=len(self.violations))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for k in self.known_hit:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, k["what"]))
        if self.violations:
            d = os.path.join(VERIF, "evidence", "replay")
            os.makedirs(d, exist_ok=True)
            rp = os.path.join(d, self.prop + ".json")
            with open(rp, "w") as f:
                json.dump([dict(what=w, **r) for w, r in self.violations], f, indent=1, default=str)
            for w, _ in self.violations[:5]:
                print("  " + w[:600])
            print("VIOLATION property=%s replay=%s" % (self.prop, rp))
            return 1
        self.log("held; %s" % json.dumps(self.cov))
        return 0

    # ------------------------------------------------------------------- TLC
    def tlc(self, module, consts=None, init=None, nxt=None, spec=None, invariants=(), properties=(),
            view=None, constraint=None, action_constraint=None, postcondition=None, simulate=None,
            depth=None, emit=True, workers=J, timeout=300, deadlock=False, expect_error=False,
            extra_files=None, heap="6g", count=True, subst=None, seed=None):
        """Runs TLC on spec/<module>.tla; returns dict(lines=emitted JSON, states, distinct, out)."""
        with LOCK:
            self._n += 1
            d = self.mk("tlc%d" % self._n)
        for f in os.listdir(SPEC):
            if f.endswith(".tla"):
                shutil.copy(os.path.join(SPEC, f), d)
        for n, t in (extra_files or {}).items():
            with open(os.path.join(d, n), "w") as f:
                f.write(t)
        ef = os.path.join(d, "emit.txt")
        c = dict(consts or {})
        if emit:
            c["EmitFile"] = '"%s"' % ef
        cfg = []
        if c:
            cfg.append("CONSTANTS")
            cfg += ["  %s <- %s" % (k, (subst or {}).get(k, "mc_" + k)) for k in c]
        if spec:
            cfg.append("SPECIFICATION " + spec)
        else:
            cfg += ["INIT " + (init or "Init"), "NEXT " + (nxt or "Next")]
        for k, v in (("INVARIANT", invariants), ("PROPERTY", properties)):
            cfg += ["%s %s" % (k, x) for x in v]
        for k, v in (("VIEW", view), ("CONSTRAINT", constraint), ("ACTION_CONSTRAINT", action_constraint),
                     ("POSTCONDITION", postcondition)):
            if v:
                cfg.append("%s %s" % (k, v))
        cfg.append("CHECK_DEADLOCK %s" % ("TRUE" if deadlock else "FALSE"))
        with open(os.path.join(d, "MC.tla"), "w") as f:
            f.write("---- MODULE MC ----\nEXTENDS %s\n" % module)
            f.writelines("mc_%s == %s\n" % kv for kv in c.items() if kv[1] is not None)
            f.write("====\n")
        with open(os.path.join(d, "M.cfg"), "w") as f:
            f.write("\n".join(cfg) + "\n")
        cmd = ["java", "-Djava.io.tmpdir=" + d, "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-cp", JARS, "tlc2.TLC",
               "-workers", str(workers), "-metadir", os.path.join(d, "meta"), "-noGenerateSpecTE",
               "-fp", "1", "-config", "M.cfg"]
        if not simulate:
            cmd += ["-seed", str(self.seed if seed is None else seed)]
        if simulate:
            cmd[cmd.index("-workers") + 1] = "1"      # long lines of several workers would interleave
            cmd += ["-simulate", "num=%d" % simulate, "-seed", str(self.seed if seed is None else seed), "-depth", str(depth or 50)]
        cmd.append("MC.tla")
        try:
            r = run(cmd, timeout=timeout, cwd=d)
        except subprocess.TimeoutExpired:
            raise CheckError("TLC timed out on %s" % module)
        out = r.stdout
        ok = r.returncode == 0 and ("No error has been found" in out or simulate)
        if not ok and not expect_error:
            msg = "\n".join(l for l in out.splitlines() if l.strip() and not re.match("Parsing file|Semantic proc|Running|TLC2|Starting", l))
            raise CheckError("TLC failed on %s (rc %s)\n%s" % (module, r.returncode, msg[:1500] + "\n...\n" + msg[-1200:] if len(msg) > 2700 else msg))
        m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
        gen, dist = (int(m[1]), int(m[2])) if m else (0, 0)
        if simulate:
            m = re.findall(r"(\d+) states checked", out) or re.findall(r"The number of states generated: (\d+)", out)
            gen = dist = int(m[-1]) if m else 0
        if count:
            with LOCK:
                self.cov["states"] += dist
                self.cov["transitions"] += gen
        lines = []
        if emit and os.path.exists(ef):
            with open(ef) as f:
                for l in f:
                    l = l.strip()
                    if l:
                        lines.append(json.loads(json.loads(l)))
        shutil.rmtree(os.path.join(d, "meta"), ignore_errors=True)
        if os.path.exists(ef):
            os.unlink(ef)
        return dict(lines=lines, states=gen, distinct=dist, out=out, rc=r.returncode, ok=ok)

    # ---------------------------------------------------------------- builds
    CFLAGS = ["-O1", "-g", "-w", "-fno-omit-frame-pointer", "-fsanitize=address", "-D_GNU_SOURCE"]

    METAFLAGS = ["-O0", "-w", "-D_GNU_SOURCE", "-g3", "-D_METAC_OFF_"]     # objects the generator reads are not instrumented

    def cc(self, src, out, flags=(), cc="gcc", base=None):
        cmd = [cc, "-I" + os.path.join(REPO, "include"), "-I" + DRV, *(self.CFLAGS if base is None else base), *flags, "-c", src, "-o", out]
        r = run(cmd, timeout=300)
        if r.returncode:
            raise CheckError("compile failed: %s\n%s" % (" ".join(cmd), r.stdout[-3000:]))
        return out

    def lib_sources(self):
        mk = open(os.path.join(REPO, "Makefile")).read().replace("\\\n", " ")
        def grab(n):
            m = re.search(r"^%s\s*\+?=\s*(.*)$" % n, mk, re.M)
            return [x for x in m[1].split() if x.endswith(".c")] if m else []
        nr, rf = grab("libmetac_no_reflect"), grab("libmetac_reflect")
        if not nr or not rf:
            raise CheckError("cannot find the library's source list")
        return nr, rf

    def metac(self):
        """The generator, built from /repo's current tree."""
        if self._metac is None:
            out = self.path("metac")
            r = run(["bash", os.path.join(VERIF, "gostubs", "build.sh"), out],
                    timeout=600, env=dict(os.environ, REPO=REPO))
            if r.returncode:
                raise CheckError("go build failed\n" + r.stdout[-3000:])
            self._metac = out
        return self._metac

    def reflect(self, elf, out, tries=1):
        r = subprocess.run([self.metac(), "run", "metac-reflect-gen", "-s", 'path_type: "elf"', "-s",
                            'path: "%s"' % elf], cwd=REPO, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=300)
        with open(out, "wb") as f:
            f.write(r.stdout)
        return r.returncode, r.stderr.decode(errors="replace")

    def plain_lib(self):
        """Archive of the library objects that need no reflection data."""
        d = self.mk("plain")
        a = os.path.join(d, "libplain.a")
        if not os.path.exists(a):
            nr, _ = self.lib_sources()
            with concurrent.futures.ThreadPoolExecutor(J) as ex:
                objs = list(ex.map(lambda s: self.cc(os.path.join(REPO, s),
                            os.path.join(d, os.path.basename(s)[:-2] + ".o"),
                            ["-DMETAC_MODULE_NAME=libmetac"]), nr))
            run(["ar", "rcs", a, *objs])
        return a

    def full_lib(self):
        """All library objects and the generated reflection data of the library itself."""
        if self._libs:
            return self._libs
        d = self.mk("full")
        nr, rf = self.lib_sources()
        F = ["-DMETAC_MODULE_NAME=libmetac"]
        jobs = [(os.path.join(REPO, s), os.path.join(d, os.path.basename(s)[:-2] + ".o"), F) for s in nr + rf]
        jobs += [(os.path.join(REPO, s), os.path.join(d, os.path.basename(s)[:-2] + ".n.o"), F, "gcc", ["-O0", "-w"]) for s in nr]
        jobs += [(os.path.join(REPO, s), os.path.join(d, os.path.basename(s)[:-2] + ".meta.o"), F, "gcc", self.METAFLAGS) for s in rf]
        jobs.append((os.path.join(REPO, "src/_module.c"), os.path.join(d, "_module.o"), F, "gcc", ["-O0", "-w"]))
        with concurrent.futures.ThreadPoolExecutor(J) as ex:
            fs = [ex.submit(self.cc, *j) for j in jobs]
            g = ex.submit(self.metac)
            for f in fs:
                f.result()
            g.result()
        o = lambda s, e: os.path.join(d, os.path.basename(s)[:-2] + e)
        elf = os.path.join(d, "_meta_libmetac")
        r = run(["gcc", "-o", elf, *[o(s, ".n.o") for s in nr], *[o(s, ".meta.o") for s in rf],
                 os.path.join(d, "_module.o"), "-lm"])
        if r.returncode:
            raise CheckError("link of _meta_libmetac failed\n" + r.stdout[-3000:])
        rc = os.path.join(d, "libmetac.reflect.c")
        code, err = self.reflect(elf, rc)
        if code or not os.path.getsize(rc):
            raise CheckError("reflection of libmetac failed\n" + err[-2000:])
        self.cc(rc, os.path.join(d, "libmetac.reflect.o"), F)
        self._libs = dict(objs=[o(s, ".o") for s in nr + rf] + [os.path.join(d, "libmetac.reflect.o")],
                          meta=[o(s, ".n.o") for s in nr])
        return self._libs

    WRAP = ["-Wl,--wrap=" + s for s in ("malloc", "calloc", "realloc", "free", "strdup", "strndup")]

    def driver_plain(self, name, srcs, libs=None, wrap=True):
        d = self.mk("drv_" + name)
        objs = [self.cc(os.path.join(DRV, s), os.path.join(d, os.path.basename(s)[:-2] + ".o")) for s in srcs]
        exe = os.path.join(d, name)
        r = run(["gcc", "-fsanitize=address", "-Wl,--unresolved-symbols=ignore-all", "-o", exe, *objs, *(libs or [self.plain_lib()]),
                 *(self.WRAP if wrap else []), "-lm"])
        if r.returncode:
            raise CheckError("link of %s failed\n%s" % (name, r.stdout[-3000:]))
        return exe

    def driver_fast(self, name, srcs):
        """Optimised and without sanitizers, for large inputs."""
        d = self.mk("fast_" + name)
        base = ["-O2", "-fno-optimize-sibling-calls", "-w", "-D_GNU_SOURCE", "-DMETAC_MODULE_NAME=libmetac"]
        src = [os.path.join(DRV, s) for s in srcs] + [os.path.join(REPO, s) for s in self.lib_sources()[0]]
        objs = pmap(lambda s: self.cc(s, os.path.join(d, os.path.basename(s)[:-2] + ".o"), base=base), src, J)
        exe = os.path.join(d, name)
        r = run(["gcc", "-Wl,--unresolved-symbols=ignore-all", "-o", exe, *objs, *self.WRAP, "-lm"])
        if r.returncode:
            raise CheckError("link of %s failed\n%s" % (name, r.stdout[-3000:]))
        return exe

    def driver_reflect(self, name, harness, plain=("alloc.c",), flags=(), gen_sources=None, wrap=True):
        """harness: .c files (paths) compiled with reflection; plain: driver files without."""
        L = self.full_lib()
        d = self.mk("drv_" + name)
        with concurrent.futures.ThreadPoolExecutor(J) as ex:
            def b(h):
                bn = os.path.basename(h)[:-2]
                return (self.cc(h, os.path.join(d, bn + ".meta.o"), flags, base=self.METAFLAGS),
                        self.cc(h, os.path.join(d, bn + ".o"), ["-g0", *flags]))
            hs = list(ex.map(b, harness))
            pm = list(ex.map(lambda s: self.cc(s if s.startswith("/") else os.path.join(DRV, s),
                      os.path.join(d, os.path.basename(s)[:-2] + ".m.o"), base=["-O0", "-w"]), plain))
            ps = list(ex.map(lambda s: self.cc(s if s.startswith("/") else os.path.join(DRV, s),
                      os.path.join(d, os.path.basename(s)[:-2] + ".p.o"), ["-g0"]), plain))
        elf = os.path.join(d, "_meta_" + name)
        w = self.WRAP if wrap else []
        r = run(["gcc", "-Wl,--unresolved-symbols=ignore-all", "-o", elf, *[x[0] for x in hs], *pm, *L["meta"], *w, "-lm"])
        if r.returncode:
            raise CheckError("link of _meta_%s failed\n%s" % (name, r.stdout[-3000:]))
        rc = os.path.join(d, name + ".reflect.c")
        code, err = self.reflect(elf, rc)
        if code or not os.path.getsize(rc):
            raise GenFailure(name, err[-2000:])
        try:
            self.cc(rc, os.path.join(d, name + ".reflect.o"))
        except CheckError as e:
            raise GenFailure(name, str(e))
        exe = os.path.join(d, name)
        r = run(["gcc", "-fsanitize=address", "-o", exe, *[x[1] for x in hs], *ps,
                 os.path.join(d, name + ".reflect.o"), *L["objs"], *w, "-lm"])
        if r.returncode:
            raise CheckError("link of %s failed\n%s" % (name, r.stdout[-3000:]))
        return exe


class StopCheck(Exception):
    pass


class GenFailure(Exception):
    """The generator failed, or its output does not compile."""
    def __init__(self, name, err):
        super().__init__(err)
        self.name, self.err = name, err


def load_known():
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return json.load(open(p))


# ------------------------------------------------------------------- drivers
ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1:detect_stack_use_after_return=0",
           LC_ALL="C")


class Died(Exception):
    pass


class Driver:
    """A line-oriented driver process: one command line in, one result line out."""
    def __init__(self, exe, args=(), timeout=20, cwd=None):
        self.exe, self.args, self.timeout, self.cwd = exe, list(args), timeout, cwd
        self.p = None

    def start(self):
        self.err = tempfile.TemporaryFile()
        self.p = subprocess.Popen([self.exe, *self.args], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=self.err, env=ENV, bufsize=0, cwd=self.cwd)
        self.buf = b""

    def cmd(self, line):
        if self.p is None:
            self.start()
        try:
            self.p.stdin.write(line.encode() + b"\n")
        except BrokenPipeError:
            self.die("driver died before '%s'" % line)
        return self.readline(line)

    def readline(self, what):
        end = time.time() + self.timeout
        while b"\n" not in self.buf:
            r, _, _ = select.select([self.p.stdout], [], [], max(0, end - time.time()))
            if not r:
                self.die("no answer within %ss to '%s'" % (self.timeout, what))
            c = os.read(self.p.stdout.fileno(), 1 << 16)
            if not c:
                self.die("driver died on '%s'" % what)
            self.buf += c
        l, self.buf = self.buf.split(b"\n", 1)
        return l.decode(errors="backslashreplace")

    def die(self, msg):
        self.p.kill()
        rc = self.p.wait()
        self.err.seek(0)
        e = self.err.read().decode(errors="replace")
        self.p = None
        raise Died("%s (rc %s): %s" % (msg, rc, summarize(e)))

    def close(self):
        if self.p is not None:
            self.p.stdin.close()
            try:
                self.p.wait(10)
            except subprocess.TimeoutExpired:
                self.p.kill()
                self.p.wait()
            self.p.stdout.close()
            self.err.close()
            self.p = None


def summarize(e):
    ls = [l for l in e.splitlines() if re.search(r"ERROR|SUMMARY|Assert|assert|runtime error|#[0-6] ", l)]
    return " | ".join(ls[:12])[:1500] or e[-400:]


def batch(exe, lines, timeout=120, args=(), cwd=None):
    """Feeds all lines to fresh driver processes; yields one result per line.
    A line that kills (or hangs) the driver gets a result starting with '!'."""
    res, i = [], 0
    while i < len(lines):
        inp = ("\n".join(lines[i:]) + "\n").encode()
        with tempfile.TemporaryFile() as ef, tempfile.TemporaryFile() as of, tempfile.TemporaryFile() as inf:
            inf.write(inp); inf.seek(0)
            p = subprocess.Popen([exe, *args], stdin=inf, stdout=of, stderr=ef, env=ENV, cwd=cwd)
            why = None
            try:
                rc = p.wait(timeout)
            except subprocess.TimeoutExpired:
                p.kill(); p.wait()
                rc, why = -9, "timeout"
            of.seek(0); ef.seek(0)
            out = of.read().decode(errors="backslashreplace").split("\n")
            err = ef.read().decode(errors="replace")
        got = out[:-1]
        res += got[:len(lines) - i]
        i = len(res)
        if i < len(lines):
            if rc == 0 and not why:
                raise CheckError("driver stopped early at '%s': %s" % (lines[i], err[-500:]))
            res.append("!%s rc=%s %s" % (why or "died", rc, summarize(err)))
            i += 1
            if sum(1 for r in res if r.startswith("!")) >= 40:
                res += ["?skipped"] * (len(lines) - i)
                break
    return res


def pbatch(exe, lines, timeout=300, args=(), n=J, cwd=None):
    """batch() on n processes in parallel, results in order."""
    if len(lines) < 64:
        return batch(exe, lines, timeout, args, cwd)
    k = (len(lines) + n - 1) // n
    chunks = [lines[i:i + k] for i in range(0, len(lines), k)]
    with concurrent.futures.ThreadPoolExecutor(n) as ex:
        out = list(ex.map(lambda c: batch(exe, c, timeout, args, cwd), chunks))
    return [x for c in out for x in c]


# --------------------------------------------------------------- graph walks
class Graph:
    """State graph emitted by TLC: node -> input label -> [(output, node')]."""
    def __init__(self, lines, label, output):
        self.g = {}
        self.init = None
        self.edges = 0
        key = lambda s: json.dumps(s, sort_keys=True)
        for e in lines:
            s, t = key(e["s"]), key(e["t"])
            l, o = label(e["a"]), output(e["a"])
            outs = self.g.setdefault(s, {}).setdefault(l, [])
            self.g.setdefault(t, {})
            if (o, t) not in outs:
                outs.append((o, t))
                self.edges += 1


def walk(ctx, graph, init, new_driver, max_steps, reset_every=400, keyprefix=""):
    """Adaptive tour: covers every (state, input) edge it can, sending inputs to the
    driver and following the specification edge whose output matches the answer."""
    g = graph.g
    todo = {s: set(ls) for s, ls in g.items()}
    remaining = sum(len(v) for v in todo.values())
    drv, cur, hist, steps, tours = None, init, [], 0, 0
    rng = ctx.rng

    def path_to_todo(s):
        seen, q = {s: None}, collections.deque([s])
        while q:
            x = q.popleft()
            if todo[x]:
                p = []
                while seen[x] is not None:
                    px, l = seen[x]
                    p.append(l)
                    x = px
                return p[::-1]
            for l, outs in g[x].items():
                for _, t in outs:
                    if t not in seen:
                        seen[t] = (x, l)
                        q.append(t)
        return None

    plan = collections.deque()
    while remaining > 0 and steps < max_steps:
        if drv is None:
            drv, cur, hist = new_driver(), init, []
            tours += 1
            plan.clear()
        if not plan:
            if todo[cur]:
                l = min(todo[cur], key=lambda x: hashlib.md5((x + str(ctx.seed)).encode()).digest()) \
                    if len(todo[cur]) < 6 else rng.choice(sorted(todo[cur]))
                plan.append(l)
            else:
                p = path_to_todo(cur)
                if p is None:
                    if cur == init:
                        break
                    drv.close(); drv = None
                    continue
                plan.extend(p)
        l = plan.popleft()
        if l not in g[cur]:
            plan.clear()
            continue
        if l in todo[cur]:
            todo[cur].discard(l)
            remaining -= 1
        hist.append(l)
        steps += 1
        try:
            r = drv.cmd(l)
        except Died as e:
            ctx.violate("%s: implementation failed: %s; history tail: %s" % (keyprefix, e, hist[-12:]),
                        history=list(hist), key=keyprefix + l)
            drv = None
            continue
        nx = [t for o, t in g[cur][l] if o == r]
        if not nx:
            ctx.violate("%s: '%s' answered '%s', specification allows %s; history tail: %s" % (
                keyprefix, l, r, [o for o, _ in g[cur][l]], hist[-12:]), history=list(hist), key=keyprefix + l)
            drv.close(); drv = None
            continue
        if len(nx) > 1 or nx[0] != (g[cur][l][0][1]):
            plan.clear()
        cur = nx[0]
        if len(hist) <= 8 and steps % 97 == 5:
            ctx.sample(dict(history=list(hist), last_answer=r))
    if drv is not None:
        ctx.sample(dict(history=hist[-8:], last_answer=r))
        drv.close()
    ctx.cov["traces_validated_against_impl"] += tours
    ctx.part(keyprefix or "walk", graph_states=len(g), graph_edges=graph.edges, steps=steps, tours=tours, uncovered_inputs=remaining)
    return remaining


def confirm(fn, times=2):
    """Re-runs a failing observation; returns True when it repeats."""
    return all(fn() for _ in range(times))


def main(table):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("tier", nargs="?", default=os.environ.get("VERIF_TIER", "quick"))
    a = ap.parse_args()
    if a.prop not in table:
        print("unknown property", a.prop)
        return 2
    ctx = Ctx(a.prop, a.tier)
    try:
        try:
            table[a.prop](ctx)
        except StopCheck:
            pass
        return ctx.finish()
    except CheckError as e:
        print("CHECK-ERROR:", e)
        return 2
    except Exception:
        import traceback
        traceback.print_exc()
        return 2
    finally:
        shutil.rmtree(ctx.scratch, ignore_errors=True)
