"""Shared machinery of the checks: building drivers from /repo, running TLC, reporting.

Outcomes of a check are exit 0 and exit 1 with a VIOLATION line, nothing else; an error of the
machinery itself (model does not parse, TLC dies, ...) is an exit 2 and is retried first."""
import atexit, concurrent.futures, glob, json, os, random, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
HARN = os.path.join(VERIF, "harness")
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = os.cpu_count() or 4
CXX = "g++-10" if shutil.which("g++-10") else "g++"
TIER = os.environ.get("VERIF_TIER", "quick")
THOROUGH = TIER == "thorough"
try:
    SEED = int(os.environ.get("VERIF_SEED", "1"))
except ValueError:
    SEED = 1


class ModelError(Exception):
    """The machinery itself failed (not the code under test)."""


class Check:
    def __init__(self, pid, level="model_checking"):
        self.pid, self.level = pid, level
        self.t0 = time.time()
        self.tmp = tempfile.mkdtemp(prefix="verif-%s-" % pid)
        atexit.register(shutil.rmtree, self.tmp, True)
        self.rng = random.Random(SEED * 1000003 + sum(map(ord, pid)))
        self.cov = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[])
        self.assumptions = []
        self.found = []          # (key, text, replay payload)
        self.known_hit = set()
        self.known = load_known(pid)
        self.dead = None

    # ---------------------------------------------------------------- reporting
    def log(self, *a):
        print("[%s %6.1fs]" % (self.pid, time.time() - self.t0), *a, flush=True)

    def violation(self, key, text, payload):
        """Record a confirmed disagreement between implementation and specification."""
        for k in self.known:
            if k == key:
                self.known_hit.add(k)
                return
        self.found.append((key, text, payload))

    def sample(self, obj, limit=6):
        if len(self.cov["samples"]) < limit:
            self.cov["samples"].append(obj)

    def finish(self):
        for k, text in self.known.items():
            if k in self.known_hit:
                print("KNOWN-FINDING: property=%s %s" % (self.pid, text))
        rc = 0
        if self.found:
            rc = 1
            d = os.path.join(VERIF, "replays")
            os.makedirs(d, exist_ok=True)
            path = os.path.join(d, "%s.json" % self.pid)
            with open(path, "w") as f:
                json.dump(dict(property=self.pid, seed=SEED, tier=TIER,
                               violations=[dict(key=k, what=t, replay=p) for k, t, p in self.found[:20]]),
                          f, indent=1, default=str)
            for k, t, _ in self.found[:5]:
                print("  violated:", t)
            print("VIOLATION property=%s replay=%s" % (self.pid, path))
        ev = dict(property=self.pid, tier="thorough" if THOROUGH else "quick", seed=SEED, level=self.level,
                  coverage=self.cov, assumptions=self.assumptions,
                  wall_s=round(time.time() - self.t0, 2), violations=len(self.found))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        self.log("done rc=%d" % rc, {k: v for k, v in self.cov.items() if isinstance(v, (int, bool))})
        sys.stdout.flush()
        return rc

    # ---------------------------------------------------------------- building
    def build(self, tus, name="driver", san="asan", opt="-O0", extra=(), lib=None, link=(), plain=(), libextra=()):
        """Compile the library sources of /repo's working tree together with driver TUs.
        Failing to compile is a violation: the drivers use only documented public API."""
        flags = ["-std=c++17", opt, "-g1", "-DNDEBUG", "-DRTTI_STATIC", "-D_GLIBCXX_ASSERTIONS", "-w",
                 "-I" + os.path.join(HARN, "include"), "-I" + HARN, "-I" + self.tmp,
                 "-I" + REPO + "/include", "-I" + REPO + "/src/private", "-I" + REPO + "/src"]
        flags += {"asan": ["-fsanitize=address", "-fno-omit-frame-pointer"],
                  "tsan": ["-fsanitize=thread", "-fno-omit-frame-pointer"], "none": []}[san]
        flags += list(extra)
        libs = sorted(glob.glob(REPO + "/src/**/*.cpp", recursive=True)) if lib is None else lib
        objd = os.path.join(self.tmp, "obj-" + name)
        os.makedirs(objd, exist_ok=True)
        jobs = [(s, os.path.join(objd, "l%d.o" % i), ["-fno-rtti"] + list(libextra)) for i, s in enumerate(libs)]
        jobs += [(s, os.path.join(objd, "d%d.o" % i), []) for i, s in enumerate(list(tus) + list(plain))]
        # biggest first
        jobs.sort(key=lambda j: -os.path.getsize(j[0]) if j[0] not in libs else 0)

        def one(job):
            src, obj, fl = job
            r = subprocess.run([CXX] + flags + fl + ["-c", src, "-o", obj], stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, text=True, errors="replace")
            return (src, r.returncode, r.stdout)

        with concurrent.futures.ThreadPoolExecutor(NCPU) as ex:
            res = list(ex.map(one, jobs))
        bad = [j for j, r in zip(jobs, res) if r[1]]
        if bad:
            res2 = [one(j) for j in bad]     # a killed compiler is not a verdict: once more, serially
            bad = [r for r in res2 if r[1]]
        if bad:
            err = "\n".join(l for l in bad[0][2].splitlines() if "error" in l)[:2000] or bad[0][2][-2000:]
            self.dead = "does not compile: " + os.path.basename(bad[0][0]) + ": " + err
            return None
        exe = os.path.join(self.tmp, name)
        r = subprocess.run([CXX] + flags + [j[1] for j in jobs] + ["-o", exe, "-lpthread", "-ldl"] + list(link),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        if r.returncode:
            self.dead = "does not link: " + r.stdout[-2000:]
            return None
        return exe

    def compile_failed(self):
        self.violation("build", "code using the public API no longer compiles: " + (self.dead or ""),
                       dict(compile_error=self.dead))
        return self.finish()

    # ---------------------------------------------------------------- running
    def run(self, exe, args=(), inp=None, timeout=600, env=None):
        e = dict(os.environ)
        e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:" \
                            "detect_stack_use_after_return=0:handle_abort=1:color=never"
        e["TSAN_OPTIONS"] = "exitcode=66:halt_on_error=0:color=never:second_deadlock_stack=1"
        e.update(env or {})
        try:
            r = subprocess.run([exe] + list(args), input=inp, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                               timeout=timeout, env=e)
            return r.returncode, r.stdout.decode("utf-8", "replace"), r.stderr.decode("utf-8", "replace")
        except subprocess.TimeoutExpired as x:
            return "timeout", (x.stdout or b"").decode("utf-8", "replace"), (x.stderr or b"").decode("utf-8", "replace")

    # ---------------------------------------------------------------- TLC
    def tlc(self, module, cfg, data=None, workers=None, timeout=800, consts=None, heap="6g", coverage=False, extra=None):
        """Run TLC on spec/<module>.tla with spec/<cfg> (or a cfg text); data: {ENVNAME: json-able list}
        written as ndjson and passed through the environment."""
        d = tempfile.mkdtemp(prefix="tlc-", dir=self.tmp)
        for f in glob.glob(SPEC + "/*.tla"):
            shutil.copy(f, d)
        for name, body in (extra or {}).items():
            open(os.path.join(d, name + ".tla"), "w").write(body)
        cfgp = os.path.join(d, "run.cfg")
        text = open(os.path.join(SPEC, cfg)).read() if cfg.endswith(".cfg") else cfg
        with open(cfgp, "w") as f:
            f.write(text)
            for k, v in (consts or {}).items():
                f.write("\nCONSTANT %s = %s\n" % (k, v))
        env = dict(os.environ)
        for k, rows in (data or {}).items():
            p = os.path.join(d, k + ".ndjson")
            with open(p, "w") as f:
                for r in rows:
                    f.write(json.dumps(r) + "\n")
            env[k] = p
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-Djava.io.tmpdir=" + d, "-cp", JAR, "tlc2.TLC",
               "-workers", str(workers or NCPU), "-deadlock", "-metadir", os.path.join(d, "meta"), "-config", cfgp]
        if coverage:
            cmd += ["-coverage", "1"]
        cmd += [os.path.join(d, module + ".tla")]
        last = ""
        for attempt in (1, 2):
            try:
                r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, cwd=d,
                                   timeout=timeout, text=True, errors="replace")
            except subprocess.TimeoutExpired:
                raise ModelError("TLC timed out on %s" % module)
            out = r.stdout
            m = re.search(r"(\d+) states generated, (\d+) distinct states found, 0 states left", out)
            viol = re.search(r"Error: (Invariant|Action property|Temporal properties|Property).*", out)
            if "Model checking completed. No error has been found" in out and m:
                shutil.rmtree(d, True)
                return dict(ok=True, out=out, generated=int(m.group(1)), distinct=int(m.group(2)))
            if viol and r.returncode not in (150, 151):
                shutil.rmtree(d, True)
                return dict(ok=False, out=out, error=viol.group(0))
            last = out
            shutil.rmtree(os.path.join(d, "meta"), True)
        i = last.find("Error:")
        x = ModelError("TLC failed on %s:\n%s\n...\n%s" % (module, last[max(i, 0):max(i, 0) + 1500], last[-1500:]))
        x.out = last
        raise x

    def validate(self, module, cfg, data, var="s", **kw):
        """Run TLC on a *Trace module. A record for which the specification isn't even defined (TLC can't
        evaluate it: values outside of every domain) is rejected as well: r["undef"], indexes from 1."""
        undef = []
        while True:
            try:
                r = self.tlc(module, cfg, dict(data, SKIP=undef), **kw)
                r["undef"] = undef
                return r
            except ModelError as x:
                m = re.search(r"The behavior up to this point is:.*?^(?:/\\ )?%s = (\d+)$" % var, getattr(x, "out", ""), re.S | re.M)
                if not m or int(m.group(1)) in undef or len(undef) >= 4:
                    raise
                undef.append(int(m.group(1)))
                self.log("%s: record %d is outside of the specification's domain" % (module, undef[-1]))

    def design(self, module, cfg, what, expect_ok=True, **kw):
        """Model-check the design itself; a failure here is an error of the specification."""
        r = self.tlc(module, cfg, **kw)
        if r["ok"] != expect_ok:
            raise ModelError("design check %s/%s: expected ok=%s\n%s" % (module, what, expect_ok, r["out"][-3000:]))
        if r["ok"]:
            self.cov["states"] += r["distinct"]
            self.cov["transitions"] += r["generated"]
        self.log("design %s: %s" % (what, {k: r.get(k) for k in ("ok", "generated", "distinct")}))
        return r

    def design_async(self, *a, **kw):
        """As design, in the background while drivers compile; call .result() later."""
        if not hasattr(self, "_pool"):
            self._pool = concurrent.futures.ThreadPoolExecutor(2)
        return self._pool.submit(self.design, *a, **kw)


def tagged(out, tag):
    """Collect lines printed by PrintT(<<tag, ToJson(x)>>)."""
    res = []
    pre = '<<"%s", "' % tag
    for line in out.splitlines():
        i = line.find(pre)
        if i >= 0:
            j = line.rfind('">>')
            s = line[i + len(pre):j]
            s = s.replace('\\"', '"').replace("\\\\", "\\")
            try:
                res.append(json.loads(s))
            except ValueError:
                raise ModelError("cannot parse TLC output line: " + line[:500])
    return res


def load_known(pid):
    known = {}
    p = os.path.join(VERIF, "known_findings.txt")
    for line in open(p):
        m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", line.strip())
        if m and m.group(1) == pid:
            known[m.group(2)] = m.group(3)
    return known


def main(fn, pid):
    """Run a check function, mapping errors of the machinery to exit 2."""
    for attempt in (1, 2):
        try:
            sys.exit(fn(pid))
        except ModelError as x:
            print("MODEL ERROR (attempt %d): %s" % (attempt, x), flush=True)
    sys.exit(2)


# -------------------------------------------------------------------- state graph -> scripts
def edge_cover(edges, init, rng, max_len=200, limit=None):
    """edges: list of (src, op, dst) with hashable states. Returns op lists from init covering every edge
    (or as many as fit in `limit` total operations)."""
    from collections import defaultdict, deque
    out = defaultdict(list)
    for k, (s, o, t) in enumerate(edges):
        out[s].append((k, o, t))
    for s in out:
        rng.shuffle(out[s])
    pending = {s: list(v) for s, v in out.items()}
    todo = len(edges)
    scripts, total = [], 0

    # distance-guided walk: BFS from the current state to the nearest state with pending edges
    def nearest(s):
        if pending.get(s):
            return []
        prev, q = {s: None}, deque([s])
        while q:
            u = q.popleft()
            for k, o, t in out[u]:
                if t not in prev:
                    prev[t] = (u, o)
                    if pending.get(t):
                        path = []
                        while t != s:
                            u2, o2 = prev[t]
                            path.append((o2, t))
                            t = u2
                        return path[::-1]
                    q.append(t)
        return None
    while todo:
        cur, ops = init, []
        while len(ops) < max_len:
            p = nearest(cur)
            if p is None:
                break
            for o, t in p:
                ops.append(o)
                cur = t
            if not pending.get(cur):
                break
            k, o, t = pending[cur].pop()
            todo -= 1
            ops.append(o)
            cur = t
        if not ops:
            break
        scripts.append(ops)
        total += len(ops)
        if limit and total >= limit:
            break
    return scripts, todo
