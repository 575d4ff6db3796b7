"""Shared machinery of all checks: build harness, run TLC, replay, report."""
import concurrent.futures as cf, hashlib, json, os, random, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("FIT_REPO", "/repo")          # override is for development only
JAVA_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
OUTROOT = os.environ.get("FIT_OUT", VERIF)          # where evidence/ and replays go

BASE_DEFS = ["-DFITORIA_HAS_FMT", "-DFITORIA_HAS_ZLIB", "-DFITORIA_HAS_BROTLI"]
LIBS = ["-lfmt", "-lz", "-lbrotlienc", "-lbrotlidec", "-lbrotlicommon"]
BOOST_LIBS = ["-lboost_url", "-lboost_json", "-lboost_container"]


class Infra(Exception):
    """The check could not give an answer (build or tool failure)."""


def tree_hash(paths):
    h = hashlib.sha256()
    for root in paths:
        if os.path.isfile(root):
            h.update(root.encode()); h.update(open(root, "rb").read()); continue
        for d, dirs, files in os.walk(root):
            dirs.sort()
            for f in sorted(files):
                p = os.path.join(d, f)
                h.update(p.encode()); h.update(open(p, "rb").read())
    return h.hexdigest()[:24]


class Check:
    def __init__(self, pid, argv=None):
        argv = sys.argv[1:] if argv is None else argv
        self.pid = pid
        self.tier = "thorough" if "thorough" in argv else "quick"
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.t0 = time.time()
        self.tmp = tempfile.mkdtemp(prefix="fitv_%s_" % pid)
        self.states = 0; self.transitions = 0; self.traces = 0; self.steps = 0
        self.samples = []; self.violations = []; self.notes = []; self.known = []
        self.extra = {}
        self.pool = cf.ThreadPoolExecutor(8)
        self.rng = random.Random(self.seed)
        self.findings = load_findings(pid)
        self.assumptions = []
        self._distinct = set()
        self.model = []

    @property
    def thorough(self):
        return self.tier == "thorough"

    # ------------------------------------------------------------------ build
    def build(self, name, srcs=None, boost=False, san=True, opt="-O0", extra=(), cxx=None, libs=(), defs=(), files=False):
        """Compile a harness against the current tree (cached by content)."""
        srcs = srcs or [name + ".cpp"]
        srcs = [os.path.join(VERIF, "harness", s) for s in srcs]
        cxx = cxx or ("clang++-18" if boost else "g++-13")
        flags = ["-std=c++20", opt, "-w"]
        if san:
            flags += ["-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-g1"]
        flags += ["-I" + os.path.join(VERIF, "harness")]
        if files:
            flags += ["-DBOOST_ASIO_HAS_FILE", "-isystem", os.path.join(VERIF, "compat_file")]
        if boost:
            flags += ["-isystem", os.path.join(VERIF, "compat")]
            libs = list(libs) + BOOST_LIBS
        flags += ["-I" + os.path.join(REPO, "include")] + BASE_DEFS + list(defs) + list(extra)
        key = tree_hash([os.path.join(REPO, "include"), os.path.join(VERIF, "compat"), os.path.join(VERIF, "compat_file"),
                         ] + sorted(os.path.join(VERIF, "harness", f) for f in os.listdir(os.path.join(VERIF, "harness")) if f.endswith(".hpp")) + srcs)
        key = hashlib.sha256((key + repr((cxx, flags, libs, name))).encode()).hexdigest()[:24]
        cache = os.path.join(VERIF, ".cache"); os.makedirs(cache, exist_ok=True)
        exe = os.path.join(cache, name + "-" + key)
        if os.path.exists(exe):
            return exe
        tmp = exe + ".%d.tmp" % os.getpid()
        cmd = [cxx] + flags + srcs + ["-o", tmp] + list(libs) + LIBS + ["-lpthread"]
        t = time.time()
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode:
            raise Infra("harness %s does not compile:\n%s" % (name, (r.stderr or r.stdout)[:6000]))
        os.rename(tmp, exe)
        self.note("built %s in %.1fs" % (name, time.time() - t))
        return exe

    def build_async(self, *a, **k):
        return self.pool.submit(self.build, *a, **k)

    # -------------------------------------------------------------------- TLC
    def tlc(self, module, cfg=None, consts=None, init="Init", next="Next", invariants=(), properties=(),
            constraint=None, postcondition=None, simulate=None, depth=None, workers=8, env=None, spec=None,
            timeout=600, heap="6g", expect_ok=True, deadlock=False, extra_cfg="", tag=None, count=True, view=None):
        """Run TLC on spec/<module>.tla; returns (records printed with Emit, info)."""
        d = tempfile.mkdtemp(prefix="tlc_", dir=self.tmp)
        for f in os.listdir(os.path.join(VERIF, "spec")):
            if f.endswith(".tla"):
                shutil.copy(os.path.join(VERIF, "spec", f), d)
        lines = []
        if spec:
            lines.append("SPECIFICATION " + spec)
        else:
            lines += ["INIT " + init, "NEXT " + next]
        defs = []
        for k, v in (consts or {}).items():
            v2 = str(v)
            if not isinstance(v, Sub) and re.search(r"\.\.|\\|\[|<<|\|->|==|^-", v2):   # not a cfg literal
                defs.append("const_%s == %s" % (k, v2)); v = Sub("const_" + k)
            lines.append("CONSTANT %s %s %s" % (k, "<-" if isinstance(v, Sub) else "=", v))
        root = module
        if defs:
            root = "Run" + module
            open(os.path.join(d, root + ".tla"), "w").write(
                "---- MODULE %s ----\nEXTENDS %s\n%s\n====\n" % (root, module, "\n".join(defs)))
        for i in invariants: lines.append("INVARIANT " + i)
        for i in properties: lines.append("PROPERTY " + i)
        if constraint: lines.append("CONSTRAINT " + constraint)
        if postcondition: lines.append("POSTCONDITION " + postcondition)
        if view: lines.append("VIEW " + view)
        lines.append("CHECK_DEADLOCK " + ("TRUE" if deadlock else "FALSE"))
        if extra_cfg: lines.append(extra_cfg)
        open(os.path.join(d, "MC.cfg"), "w").write("\n".join(lines) + "\n")
        cmd = ["java", "-Xmx" + heap, "-Xss512m", "-XX:+UseParallelGC", "-cp", JAVA_CP, "tlc2.TLC",
               "-workers", str(workers), "-metadir", os.path.join(d, "meta"), "-noGenerateSpecTE",
               "-config", "MC.cfg"]
        if simulate:
            cmd += ["-simulate", "num=%d" % simulate, "-depth", str(depth or 100), "-seed", str(self.seed)]
        cmd.append(root)
        e = dict(os.environ); e.update(env or {})
        t = time.time()
        out_path = os.path.join(d, "out.txt")
        with open(out_path, "w") as of:
            try:
                r = subprocess.run(cmd, cwd=d, stdout=of, stderr=subprocess.STDOUT, env=e, timeout=timeout)
            except subprocess.TimeoutExpired:
                raise Infra("TLC timed out on %s" % module)
        recs, rest = [], []
        with open(out_path, errors="replace") as f:
            for ln in f:
                if ln.startswith('"') and ln.rstrip().endswith('"'):
                    try:
                        recs.append(json.loads(json.loads(ln.strip(), strict=False), strict=False)); continue
                    except ValueError:
                        pass
                rest.append(ln)
        text = "".join(x for x in rest if not re.match(r"(Parsing file|Semantic processing|Linting of)", x))
        info = dict(rc=r.returncode, text=text, wall=time.time() - t, states=0, transitions=0)
        m = re.search(r"(\d+) states generated, (\d+) distinct states found", text)
        if m:
            info["transitions"], info["states"] = int(m.group(1)), int(m.group(2))
        else:
            m = re.search(r"(\d+) states checked", text) or re.search(r"states generated: (\d+)", text) \
                or re.search(r"The number of states generated: (\d+)", text)
            if m:
                info["transitions"] = info["states"] = int(m.group(1))
        if count:
            self.states += info["states"]; self.transitions += info["transitions"]
        self.model.append(dict(module=module, states=info["states"], transitions=info["transitions"],
                               emitted=len(recs), wall=round(info["wall"], 1), tag=tag))
        self.note("TLC %s%s: %d states, %d transitions, %d records, %.1fs" % (
            module, " (" + tag + ")" if tag else "", info["states"], info["transitions"], len(recs), info["wall"]))
        if expect_ok and r.returncode != 0:
            raise Infra("TLC failed on %s (rc %d):\n%s" % (module, r.returncode, text[-6000:]))
        shutil.rmtree(d, ignore_errors=True)
        return recs, info

    def tlc_async(self, *a, **k):
        return self.pool.submit(self.tlc, *a, **k)

    def write_ndjson(self, name, recs):
        p = os.path.join(self.tmp, name)
        with open(p, "w") as f:
            for r in recs: f.write(json.dumps(r) + "\n")
        return p

    def validate(self, module, records, tag=None, chunk=200, workers=8, env=None, timeout=800, consts=None):
        """Trace validation: TLC judges records made from the real code.

        The module defines Ok(rec); every record index that is not Ok is
        printed.  Returns the list of rejected indices (0-based)."""
        if not records: return []
        p = self.write_ndjson("tr_%s_%d.ndjson" % (module, len(self.model)), records)
        e = dict(env or {}); e["TRACE"] = p; e["CHUNK"] = str(chunk); e["NREC"] = str(len(records))
        recs, info = self.tlc(module, init="TInit", next="TNext", invariants=["TInv"], env=e, workers=workers,
                              tag=tag or "trace validation", timeout=timeout, consts=consts)
        self.traces += len(records)
        nchunks = (len(records) + chunk - 1) // chunk
        if info["states"] < nchunks + 1:
            raise Infra("trace validation of %s covered %d of %d chunks" % (module, info["states"], nchunks))
        return sorted(r["bad"] - 1 for r in recs if "bad" in r)

    # ----------------------------------------------------------------- replay
    def run(self, exe, lines, timeout=300, env=None, args=(), blocks=False):
        """Feed command lines to a harness; returns (rc, output lines, stderr)."""
        e = dict(os.environ)
        e.setdefault("ASAN_OPTIONS", "detect_leaks=1:allocator_may_return_null=1:detect_stack_use_after_return=0:hard_rss_limit_mb=3000")
        e.setdefault("UBSAN_OPTIONS", "print_stacktrace=1")
        e.update(env or {})
        data = ("\n".join(lines) + "\n").encode() if lines is not None else b""
        try:
            r = subprocess.run([exe] + list(args), input=data, capture_output=True, timeout=timeout, env=e, cwd=self.tmp)
            return r.returncode, r.stdout.decode("latin1").split("\n")[:-1], r.stderr.decode("latin1")
        except subprocess.TimeoutExpired as x:
            return -999, (x.stdout or b"").decode("latin1").split("\n")[:-1], "timeout after %ss" % timeout

    def run_cases(self, exe, cases, enc, timeout=300, jobs=8, what="case", min_chunk=50, env=None, case_timeout=20):
        """Run one line per case, one output line per case, over several
        processes.  A crash or hang is attributed to its case and becomes the
        observation "CRASH ..."/"HANG"."""
        n = len(cases)
        out = [None] * n
        size = max(min_chunk, (n + jobs - 1) // jobs)
        chunks = [(i, min(n, i + size)) for i in range(0, n, size)]

        def work(lo, hi):
            i = lo
            fails = 0
            while i < hi:
                lines = [enc(c) for c in cases[i:hi]]
                rc, o, err = self.run(exe, lines, timeout=timeout, env=env)
                for k, ln in enumerate(o[:hi - i]): out[i + k] = ln
                got = min(len(o), hi - i)
                if rc == 0 and got == hi - i: break
                if rc == 0 and got < hi - i and not err:
                    raise Infra("harness produced %d of %d answers" % (got, hi - i))
                # failure on case i+got (or at exit)
                if got >= hi - i:
                    tag = "CRASH-AT-EXIT rc=%d %s" % (rc, summarize(err))
                    out[hi - 1] = (out[hi - 1] or "") + " " + tag
                    break
                out[i + got] = ("HANG" if rc == -999 else "CRASH rc=%d %s" % (rc, summarize(err)))
                i += got + 1
                fails += 1
                if fails > 5:
                    for k in range(i, hi): out[k] = None
                    break
        futs = [self.pool.submit(work, lo, hi) for lo, hi in chunks]
        for f in futs: f.result()
        return out

    # ---------------------------------------------------------------- verdicts
    def note(self, s):
        print("[%s %6.1fs] %s" % (self.pid, time.time() - self.t0, s), flush=True)

    def seen(self, key):
        self._distinct.add(key)

    def sample(self, x):
        if len(self.samples) < 8: self.samples.append(x)

    def expect(self, key, case, expected, observed):
        """Record one comparison of the specification with the real code."""
        if expected == observed: return True
        self.violation(key, dict(case=case, expected=expected, observed=observed))
        return False

    def violation(self, key, detail):
        for f in self.findings:
            if f["match"](key, detail):
                if not f.get("hit"):
                    f["hit"] = True
                    print("KNOWN-FINDING: property=%s %s" % (self.pid, f["text"]), flush=True)
                return
        self.violations.append(dict(key=key, detail=detail))

    def finish(self, level="model_checking", extra_cov=None, assumptions=()):
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level=level)
        cov = dict(states=self.states, transitions=self.transitions,
                   traces_validated_against_impl=self.traces, samples=self.samples or ["(none)"],
                   evaluations=self.steps, distinct_nontrivial=len(self._distinct), models=self.model)
        cov.update(self.extra); cov.update(extra_cov or {})
        ev["coverage"] = cov
        ev["wall_s"] = round(time.time() - self.t0, 2)
        ev["assumptions"] = list(assumptions) + self.assumptions
        ev["violations"] = len(self.violations)
        evd = os.path.join(OUTROOT, "evidence"); os.makedirs(evd, exist_ok=True)
        with open(os.path.join(evd, self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        rc = 0
        rp = os.path.join(evd, "replay-%s.json" % self.pid)
        if not self.violations and os.path.exists(rp): os.remove(rp)
        if self.violations:
            rp = os.path.join(evd, "replay-%s.json" % self.pid)
            with open(rp, "w") as f:
                json.dump(dict(property=self.pid, seed=self.seed, tier=self.tier,
                               violations=self.violations[:50]), f, indent=1, default=str)
            v = self.violations[0]
            print("first violation: %s" % json.dumps(v, default=str)[:3000])
            print("%d disagreement(s) between specification and implementation" % len(self.violations))
            print("VIOLATION property=%s replay=%s" % (self.pid, rp), flush=True)
            rc = 1
        else:
            self.note("ok: %d states, %d transitions, %d traces validated, %d steps compared" % (
                self.states, self.transitions, self.traces, self.steps))
        shutil.rmtree(self.tmp, ignore_errors=True)
        self.pool.shutdown(wait=False)
        return rc


class Sub(str):
    """A TLC constant given by definition substitution (<-)."""


def summarize(err):
    m = re.search(r"(ERROR: AddressSanitizer: [^\n]*|runtime error: [^\n]*|SUMMARY: [^\n]*|Assertion [^\n]*|terminate called[^\n]*(\n[^\n]*)?|LeakSanitizer[^\n]*)", err)
    return (m.group(1) if m else err[-200:]).replace("\n", " ")


def load_findings(pid):
    """known_findings.txt: lines  'finding: property=ID key=<regex> <text>'."""
    res = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for ln in open(p):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", ln.strip())
            if m and m.group(1) == pid:
                rx = re.compile(m.group(2))
                res.append(dict(match=lambda k, d, rx=rx: bool(rx.fullmatch(k)), text=m.group(3)))
    return res


def main(pid, fn, level="model_checking"):
    ck = Check(pid)
    try:
        fn(ck)
        rc = ck.finish(level)
    except Infra as e:
        print("NO ANSWER for %s: %s" % (pid, e), flush=True)
        shutil.rmtree(ck.tmp, ignore_errors=True)
        rc = 2
    except Exception:
        import traceback
        traceback.print_exc(file=sys.stdout)
        print("NO ANSWER for %s: internal error of the check" % pid, flush=True)
        rc = 2
    sys.stdout.flush()
    os._exit(rc)


def hx(b):
    """bytes/list of ints -> hex token ('-' if empty)"""
    b = bytes(b)
    return b.hex() or "-"


def unhx(s):
    return b"" if s == "-" else bytes.fromhex(s)
