"""C18 and the concurrent part of C16 (spec/Concurrent.tla): programs of several threads under a controlled scheduler."""
from vlib import *
import check_registry as reg
from check_registry import op, line, short, MN, PN, EN, NS, CN

AN = ["a", "b", "c"]
DEFS = ["attr", "enum", "method", "prop", "ctor", "nsx", "clsx", "ns", "class", "base", "elem", "lazy"]
QUERY = ["obs", "methodBy", "propBy", "inherits", "force", "find", "each"]
OTHER = ["creg", "cunreg", "chas", "cuse", "type", "tname"]


def text(p, runs):
    out = []
    for l in p["lz"]:
        out.append("lazy-body")
        out += map(line, l)
    out.append("main")
    out += map(line, p["main"])
    for t in p["threads"]:
        out.append("thread")
        out += map(line, t)
    out += runs
    out.append("---")
    return "\n".join(out) + "\n"


class Gen:
    """Random programs of threads. values: attributes may be set again while others read them."""

    def __init__(self, rng, style):
        self.rng, self.style, self.lz = rng, style, []

    def name(self, k):
        return (CN + ["C4", "C5"])[k - 1] if self.rng.random() < self.style.get("tidy", 0.8) else self.rng.choice(CN)

    def lazy(self, k, depth):
        i = len(self.lz)
        self.lz.append(None)
        self.lz[i] = self.body(k, self.rng.randrange(1, 4), depth - 1, True)
        return i + 1

    def query(self, kinds=None):
        r = self.rng
        w = r.choice(kinds or self.style.get("q", ["obs", "obs", "methodBy", "propBy", "inherits", "force", "find", "find"]))
        a = r.choice([0] + list(self.style.get("classes", [1, 2, 3, 4, 5])) * 1)
        if w == "obs":
            what = r.choice(["nsCount", "ns0", "classCount", "class0", "propCount", "prop0", "methodCount", "method0", "enumCount", "enum0", "ctorCount", "ctor0",
                             "attrCount", "attrName0", "eachClass", "eachMethod", "eachAttr", "nsBy", "classBy", "enumBy", "elemCount", "elem0", "eachElem", "ctor", "force"]
                            + (["attrBy", "attr0"] if self.style.get("values", True) else []) + (["baseCount", "base0", "derivedCount", "derived0"] * 2 if a else []))
            n = r.choice({"nsBy": NS[:2], "classBy": CN, "enumBy": EN, "elemCount": EN, "elem0": EN, "eachElem": EN, "attrBy": AN, "ctor": ["constructor", "make(int)", "d_constructor", "c_constructor", "m_constructor"]}.get(what, [""]))
            return op("obs", a, n=n, m=what)
        if w == "methodBy":
            return op(w, a, n=r.choice(MN[:2] + ["f()", "ff(int)", "f(int)"]))
        if w == "propBy":
            return op(w, a, n=r.choice(PN[:2]))
        if w == "inherits":
            return op(w, a, r.choice(self.style.get("classes", [1, 2, 3, 4, 5])))
        if w == "find":
            return op(w, r.choice(self.style.get("classes", [1, 2, 3, 4, 5])))
        if w == "each":
            b = 0
            if r.random() < 0.6:
                self.lz.append([self.simple(0, 0) for _ in range(r.randrange(1, 3))])
                b = len(self.lz)
            return op(w, a, b, m=r.choice(["class", "method", "attr"]))
        return op("force", a)

    def simple(self, k, depth):
        """an operation which opens no scope"""
        r, st = self.rng, self.style
        w = r.choice([x for x in st.get("simple", ["attr", "enum", "method", "prop", "ctor", "nsx", "clsx", "clsx", "elem", "query", "query"]) if x != "ctor" or k])
        if w == "attr":
            return op("attr", r.randrange(1, 9), n=r.choice(AN))
        if w == "elem":
            return op("elem", r.randrange(1, 9), n=r.choice(AN))
        if w == "enum":
            return op("enum", 1, n=r.choice(EN))
        if w == "method":
            return op("method", r.choice([0, 1]), r.randrange(1, 4), n=r.choice(MN[:2]))
        if w == "prop":
            return op("prop", r.randrange(2) if k else 0, r.randrange(1, 4), n=r.choice(PN[:2]))
        if w == "ctor":
            n = r.choice(["constructor", "make"])
            return op("ctor", 0, 0, n, n + "(int)")
        if w == "nsx":
            return op("nsx", n=r.choice(NS[:2]))
        if w == "clsx":
            c = r.choice([x for x in st.get("classes", [1, 2, 3, 4, 5]) if x != k] or [5 if k != 5 else 1])
            return op("clsx", c, n=self.name(c))
        if w == "conv":
            p = r.choice([1, 1, 2])
            x = r.choice(["creg", "creg", "cunreg", "chas", "cuse", "cuse"])
            return op(x, p, r.randrange(1, 5) if x == "creg" else 0)
        if w == "types":
            return op(r.choice(["type", "type", "tname"]), r.randrange(1, 7))
        return self.query()

    def body(self, k, length, depth, nested):
        r, st, ops = self.rng, self.style, []
        stack = [k]
        while length > 0:
            length -= 1
            k = stack[-1]
            x = r.random()
            if x < st.get("open", 0.3) and len(stack) < 3:
                if k == 0 and r.random() < st.get("ns", 0.35):
                    ops.append(op("ns", n=r.choice(NS[:2])))
                    stack.append(0)
                else:
                    c = r.choice([x for x in st.get("classes", [1, 2, 3, 4, 5]) if x != k] or [5 if k != 5 else 1])
                    ops.append(op("class", c, n=self.name(c)))
                    stack.append(c)
                    if c in reg.BASES and r.random() < st.get("base", 0.5):
                        ops.append(op("base", l=r.choice(reg.BASES[c])))
            elif x < st.get("open", 0.3) + 0.12 and len(stack) > 1:
                ops.append(op("end"))
                stack.pop()
            elif x < st.get("open", 0.3) + 0.12 + st.get("lazy", 0) and depth > 0:
                ops.append(op("lazy", self.lazy(k, depth)))
            elif nested and r.random() < st.get("throw", 0):
                ops.append(op("throw"))
                break
            else:
                ops.append(self.simple(k, depth))
        return ops

    def program(self):
        r, st = self.rng, self.style
        main = self.body(0, r.randrange(0, st.get("prologue", 3) + 1), st.get("depth", 0), False) if st.get("prologue", 3) else []
        nt = r.choice(st.get("threads", [2, 2, 3]))
        return dict(lz=self.lz, main=main, threads=[self.body(0, r.randrange(1, st.get("length", 4) + 1), st.get("depth", 0), False) for _ in range(nt)]) | dict(lz=self.lz)


STYLES = {
    "C18": [dict(), dict(classes=[1, 2], tidy=0.7), dict(classes=[1, 2, 4], simple=["query"], open=0.6, base=0.9, prologue=4),
            dict(simple=["attr", "elem", "enum", "query"], classes=[1]), dict(simple=["conv", "conv", "types"], open=0, prologue=0, length=5),
            dict(q=["each", "each", "obs"], classes=[1, 2], prologue=4), dict(simple=["nsx", "clsx", "method", "prop"], classes=[1, 2], open=0.2),
            dict(lazy=0.2, depth=2, classes=[1, 2])],
    "C16": [dict(lazy=0.35, depth=2, classes=[1, 2], prologue=4, length=3), dict(lazy=0.35, depth=3, classes=[1, 2, 4], prologue=4, length=3, throw=0.1),
            dict(lazy=0.3, depth=2, classes=[1], simple=["query", "attr"], prologue=3, length=4), dict(lazy=0.3, depth=3, classes=[1, 2], q=["force", "methodBy", "inherits", "find", "obs"], prologue=4, length=3)],
}
E_ = op("end")
K = lambda k, n=None: op("class", k, n=n or (CN + ["C4", "C5"])[k - 1])
IN = [op("ns", n="n"), E_]


def pairs(pid, full):
    """short programs: every two operations at the same time, in a few situations, every schedule with few preemptions"""
    inA = lambda *o: [K(1)] + list(o) + [E_]
    if pid == "C18":
        ops = [[op("nsx", n="n")], [op("ns", n="n"), op("obs", 0, m="nsCount")], [op("clsx", 1, n="A")], [op("clsx", 1, n="B")], [op("clsx", 2, n="A")], [op("clsx", 2, n="B")],
               [op("enum", 1, n="E"), op("elem", 1, n="a"), op("elem", 2, n="b")], [op("enum", 1, n="E"), op("elem", 3, n="b")], [op("method", 0, 1, "f"), op("methodBy", 0, n="f")], [op("method", 0, 2, "f")], [op("method", 1, 2, "f")], [op("prop", 0, 1, "p")],
               [op("prop", 0, 2, "p"), op("propBy", 0, n="p")], [op("attr", 1, n="a"), op("attr", 2, n="b")], [op("attr", 3, n="b")], [op("attr", 5, n="a"), op("obs", 0, n="a", m="attrBy")],
               [op("obs", 0, m="eachClass")], [op("find", 1), op("obs", 0, n="A", m="classBy")], [op("obs", 0, m="class0"), op("find", 1)],
               [op("obs", 1, n="m_constructor", m="ctor"), op("obs", 1, n="d_constructor", m="ctor")],
               [K(2), op("base", l=[1])], [op("inherits", 2, 1), op("obs", 1, m="derivedCount"), op("obs", 2, m="baseCount")], inA(op("method", 3, 1, "f")), inA(op("ctor", 0, 0, "make", "make(int)"), op("method", 3, 2, "f")),
               [op("methodBy", 2, n="f"), op("methodBy", 1, n="f")], [op("creg", 1, 1), op("cuse", 1)], [op("creg", 1, 2), op("chas", 1)], [op("cunreg", 1), op("chas", 1)], [op("type", 1), op("type", 4)], [op("type", 4), op("tname", 1)],
               [op("tname", 1), op("type", 1)]]
        pre = [[], [op("clsx", 1, n="A"), op("attr", 7, n="a")], [K(1), op("method", 3, 3, "f"), E_, K(2), op("base", l=[1]), E_]]
        for i, a in enumerate(ops):
            for b in ops[:i + 1]:
                for m in pre:
                    yield dict(lz=[], main=m, threads=[a, b])
        # enumerations whose callbacks define and look up further items
        back = [[op("attr", 6, n="c")], [op("attr", 6, n="a"), op("obs", 1, n="c", m="attrBy")], [op("method", 0, 1, "ff"), op("methodBy", 1, n="f")], [op("clsx", 4, n="C4"), op("obs", 0, m="eachClass")]]
        there = [[op("obs", 1, m="attrCount")], inA(op("attr", 4, n="c")), [op("each", 1, 1, m="attr")], inA(op("method", 0, 2, "f")), [op("methodBy", 1, n="ff")], [op("clsx", 5, n="C5")]]
        for body in back:
            for what in ["attr", "method", "class"]:
                for b in there:
                    k = 0 if what == "class" else 1
                    yield dict(lz=[body], main=[K(1), op("attr", 1, n="a"), op("attr", 2, n="b"), op("method", 3, 3, "f"), E_], threads=[[K(1), op("each", k, 1, m=what)], b])
    else:
        bodies = [[op("method", 0, 1, "f"), op("attr", 1, n="a")], [op("clsx", 2, n="B"), op("obs", 0, n="B", m="classBy")], [op("throw")], [op("attr", 1, n="a"), op("obs", 2, m="attrCount")]]
        a2 = [op("method", 0, 2, "ff"), op("obs", 1, m="methodCount")]
        ops = [[op("obs", 1, m="methodCount")], [op("methodBy", 1, n="f")], [op("obs", 1, m="attrCount"), op("obs", 1, m="class0")], [op("force", 0)], [K(1), op("lazy", 6), E_, op("obs", 1, m="attrCount")],
               [op("inherits", 2, 1), op("obs", 2, m="methodCount")], [op("find", 1), op("obs", 1, m="eachMethod")], [K(1), op("method", 3, 3, "f"), E_], [op("obs", 2, m="attrCount"), op("obs", 1, m="methodCount")], [op("methodBy", 2, n="f")]]
        for i, a in enumerate(ops):
            for b in ops[:i + 1]:
                for j, body in enumerate(bodies):
                    # class A with a deferred definition, class B derived from it with another one which needs A
                    yield dict(lz=[body, a2, [], [], [], [op("attr", 3, n="c")]], main=[K(1), op("lazy", 1), E_, K(2), op("base", l=[1]), op("lazy", 2), E_], threads=[a, b])
    return


def nt(p):
    return 2 + len(p["threads"])


def brief(e):
    return "%s %d%s%s%s" % (e["e"], e["t"], " " + short(e["o"]) if e["o"] else "", " " + e["c"] if e["c"] else "", " %s %s" % (e["out"], e["res"]) if e["e"] in ("ret", "end", "item") else "")


def observe(chk, exe, jobs, timeout=700):
    """jobs: (program, [run lines]). Returns per job: histories, failures, statistics"""
    parts = [list(range(i, len(jobs), NCPU)) for i in range(NCPU)]

    def one(idx):
        if not idx:
            return 0, "", ""
        return chk.run(exe, [], "".join(text(*jobs[i]) for i in idx).encode(), timeout=timeout)
    with concurrent.futures.ThreadPoolExecutor(NCPU) as ex:
        outs = list(ex.map(one, parts))
    res = [dict(h=[], bad=[], runs=0, complete=True) for _ in jobs]
    for idx, (rc, out, err) in zip(parts, outs):
        seen = set()
        for l in out.splitlines():
            try:
                x = json.loads(l)
            except ValueError:
                continue
            r = res[idx[x["p"]]]
            seen.add(x["p"])
            if "ev" in x:
                r["h"].append(x["ev"])
            elif "bad" in x:
                r["bad"].append((x["bad"], x["text"], err[-3000:] if x["bad"] == "crash" else ""))
            else:
                r["runs"] += x["runs"]
                r["complete"] = r["complete"] and bool(x["complete"])
        if rc:
            for k in range(len(idx)):
                if k not in seen:
                    res[idx[k]]["bad"].append(("crash", "driver: status %s" % rc, err[-3000:]))
                    break
    return res


def judge(chk, items, verbose=False):
    """items: (program, history). Returns the indexes of rejected histories and TLC's output"""
    data = [dict(n=reg.NCLS, names=reg.NAMES, nt=nt(p), ev=h) for p, h in items]
    r = chk.validate("ConcurrentTrace", "SPECIFICATION Spec\nCONSTANT Verbose = %s\n%s" % ("TRUE" if verbose else "FALSE", "INVARIANT Told\n" if verbose else ""),
                     dict(HIST=data), heap="14g")
    ok = {int(m) for m in re.findall(r'<<"DONE", "(\d+)">>', r["out"])}
    return [i for i in range(len(items)) if i + 1 not in ok], r


def conform(chk, exe, jobs, what, batch=6000):
    t = time.time()
    res = observe(chk, exe, jobs)
    items = [(p, h) for (p, _), r in zip(jobs, res) for h in r["h"]]
    fails = [(jobs[i], b) for i, r in enumerate(res) for b in r["bad"]]
    t1 = time.time()
    rejected = []
    for k in range(0, len(items), batch):
        part = items[k:k + batch]
        bad, r = judge(chk, part)
        chk.cov["states"] += r["distinct"]
        chk.cov["transitions"] += r["generated"]
        rejected += [part[i] for i in bad]
    chk.cov["schedules"] = chk.cov.get("schedules", 0) + sum(r["runs"] for r in res)
    chk.cov["programs"] = chk.cov.get("programs", 0) + len(jobs)
    chk.cov["traces_validated_against_impl"] += len(items)
    chk.cov["deferred_definitions_run"] = chk.cov.get("deferred_definitions_run", 0) + sum(e["e"] == "run" for _, h in items for e in h)
    chk.log("%s: %d programs, %d schedules (%d programs completely), %d different histories, %d rejected, %d failures; %.0fs + %.0fs" % (
        what, len(jobs), sum(r["runs"] for r in res), sum(r["complete"] for r in res), len(items), len(rejected), len(fails), t1 - t, time.time() - t1))
    if items:
        chk.sample(dict(history=[brief(e) for e in items[len(items) // 2][1]][:16]))
    # once more before reporting
    for (job, (kind, txt, err)) in fails[:3]:
        again = observe(chk, exe, [job] * 2)
        bads = [b for r in again for b in r["bad"]]
        if bads:
            key = "%s:%s" % (kind, bads[0][1][:60].replace(" ", "_") if kind == "deadlock" else "status")
            chk.violation(key, "%s: %s: %s" % (what, kind, (bads[0][1] + " " + bads[0][2])[:500]), dict(program=show(job[0]), runs=job[1], detail=bads[0]))
    for p, h in rejected[:4]:
        bad, r = judge(chk, [(p, h)], verbose=True)
        if not bad:
            continue
        at = max([int(x) for x in re.findall(r'<<"AT", "(\d+)">>', r["out"])] or [0])
        ev = h[at] if at < len(h) else h[-1]
        looks = tagged(r["out"], "LOOKS")[:1]
        chk.violation("%s:%s" % (what.replace(" ", "_"), ev["e"]),
                      "%s: no order of the calls explains the history; it can be explained up to: %s" % (what, brief(ev)),
                      dict(program=show(p), history=[brief(e) for e in h], explained=at, final=looks))


def show(p):
    return dict(deferred=[[short(o) for o in l] for l in p["lz"]], main=[short(o) for o in p["main"]], threads=[[short(o) for o in t] for t in p["threads"]])


def build(chk):
    H = HARN
    exe = chk.build([H + "/concurrent_main.cpp", H + "/control.cpp"], name="controlled", libextra=["-fsanitize-coverage=trace-pc"], link=["-rdynamic"])
    return exe


def races(chk, exe, progs, count):
    """the same kind of programs by threads really running in parallel, watched by ThreadSanitizer"""
    res = observe(chk, exe, [(p, ["run free %d 1 0 0 0" % count]) for p in progs])
    chk.cov["parallel_runs"] = chk.cov.get("parallel_runs", 0) + sum(r["runs"] for r in res)
    bad = [(i, b) for i, r in enumerate(res) for b in r["bad"]]
    chk.log("parallel runs under ThreadSanitizer: %d programs, %d runs, %d failures" % (len(progs), sum(r["runs"] for r in res), len(bad)))
    for i, b in bad[:3]:
        again = observe(chk, exe, [(progs[i], ["run free %d 1 0 0 0" % (count * 10)])] * NCPU)
        bads = [x for r in again for x in r["bad"]]
        if bads:
            err = bads[0][2]
            m = re.search(r"SUMMARY: (.*)", err)
            chk.violation("race:%s" % (m.group(1)[:80].replace(" ", "_") if m else "status"), "parallel run: %s; %s" % (bads[0][1], m.group(1) if m else err[-300:]), dict(program=show(progs[i]), detail=err[-3000:]))


def mixes():
    """one thread keeps writing, another one keeps reading (or writing) the same: every list of the registry with everything that reads it"""
    classes = [K(1), op("enum", 1, n="E"), op("elem", 1, n="z"), E_, K(2), op("base", l=[1]), E_, K(3), E_, K(4), E_, K(5), E_]
    obs = lambda k, *ws: [op("obs", k, m=w) for w in ws]
    each = lambda k, w: op("each", k, 0, m=w)
    for k in (0, 1):
        inside = lambda l: l if k == 0 else [K(1)] + l + [E_]
        w = {"ns": [op("nsx", n=n) for n in NS] if k == 0 else None,
             "class": [op("clsx", c, n=n) for c, n in ((1, "A"), (2, "B"), (4, "C4"), (5, "C5"))] if k == 0 else None,
             "method": [op("method", s, i % 3 + 1, n) for i, (s, n) in enumerate([(0, "f"), (1, "f"), (0, "ff"), (1, "ff"), (0, "f0")])],
             "prop": [op("prop", 0, i + 1, n) for i, n in enumerate(PN)],
             "enum": [x for n in EN for x in (op("enum", 1, n=n), op("elem", 1, n="a"), op("elem", 2, n="b"), op("elem", 3, n="c"))],
             "attr": [op("attr", i + 1, n=n) for i, n in enumerate("abcde")],
             "ctor": [op("ctor", 0, 0, n, n + "(int)") for n in ("constructor", "make")] if k else None}
        r = {"ns": obs(k, "nsCount", "ns0") + [op("obs", k, n="n", m="nsBy")], "class": obs(k, "classCount", "class0", "eachClass") + [op("obs", k, n="A", m="classBy"), op("find", 1), op("find", 2), each(k, "class")],
             "method": obs(k, "methodCount", "method0", "eachMethod") + [op("methodBy", k, n="f"), op("methodBy", k, n="f0()"), each(k, "method"), op("methodBy", 2, n="f")],
             "prop": obs(k, "propCount", "prop0") + [op("propBy", k, n="pp"), op("propBy", 2, n="pp")],
             "enum": obs(k, "enumCount", "enum0") + [op("obs", k, n=n, m=m) for n in EN for m in ("enumBy", "elemCount", "elem0", "eachElem")],
             "attr": obs(k, "attrCount", "attrName0", "eachAttr", "attr0") + [op("obs", k, n="c", m="attrBy"), each(k, "attr")],
             "ctor": obs(k, "ctorCount", "ctor0") + [op("obs", k, n="make(int)", m="ctor"), op("obs", k, n="m_constructor", m="ctor")]}
        for x in w:
            if not w[x]:
                continue
            for q in r[x]:
                for main in ([], classes):
                    if main == [] and (k or q.get("a") == 2 or x == "class"):
                        if not (x == "class" and main == []):
                            continue
                    yield dict(lz=[], main=main, threads=[inside(w[x]), [q] * 5])
            yield dict(lz=[], main=classes if k else [], threads=[inside(w[x]), inside(w[x][::-1] if x != "enum" else w[x])])
    derive = [K(3), op("base", l=[1]), op("base", l=[5]), E_, K(4), op("base", l=[2]), op("base", l=[3]), E_]
    for q in obs(1, "derivedCount", "derived0") + obs(5, "derivedCount", "derived0") + obs(3, "baseCount", "base0") + obs(4, "baseCount", "base0") + \
            [op("inherits", 4, 1), op("inherits", 3, 5), op("inherits", 2, 1), op("methodBy", 4, n="f"), op("propBy", 3, n="p")]:
        yield dict(lz=[], main=classes, threads=[derive, [q] * 5])
    yield dict(lz=[], main=classes, threads=[derive, [K(4), op("base", l=[3]), E_, K(3), op("base", l=[5]), op("base", l=[1]), E_]])
    conv = [[op("creg", p, 1) for p in (1, 2)] + [op("cunreg", p) for p in (1, 2)], [op("chas", 1), op("chas", 2)] * 3, [op("cuse", 1), op("cuse", 2)] * 3, [op("creg", p, 2) for p in (2, 1)]]
    for i, a in enumerate(conv):
        for b in conv[:i]:
            yield dict(lz=[], main=[], threads=[a, b])
    types = [[op("type", j) for j in (1, 4, 2, 5, 3, 6)], [op("type", j) for j in (6, 3, 4, 1, 5, 2)], [op("tname", j) for j in (1, 2, 3, 4, 5, 6)]]
    for i, a in enumerate(types):
        for b in types[:i + 1]:
            yield dict(lz=[], main=[], threads=[a, b])


def part(chk, pid, exe, npairs, nrandom, dfs, rnd):
    rng = chk.rng
    ps = list(pairs(pid, THOROUGH))
    if npairs < len(ps):
        always = [p for p in ps if any(o["op"] == "each" for t in p["threads"] for o in t)]
        other = [p for p in ps if p not in always]
        ps = always + rng.sample(other, npairs - len(always))
    conform(chk, exe, [(p, ["run dfs %d %d 0 2 0" % (dfs, rng.randrange(1, 1000)), "run random %d %d 0.1 0 1" % (2 * rnd, rng.randrange(1, 10**6))]) for p in ps], "pairs of calls")
    progs = [Gen(rng, STYLES[pid][i % len(STYLES[pid])]).program() for i in range(nrandom)]
    runs = lambda: ["run random %d %d 0.3 0 0" % (rnd, rng.randrange(1, 10**6)), "run random %d %d 0.03 0 1" % (rnd, rng.randrange(1, 10**6)),
                    "run pct %d %d 0 3 0" % (rnd, rng.randrange(1, 10**6)), "run pct %d %d 0 3 1" % (rnd, rng.randrange(1, 10**6))]
    conform(chk, exe, [(p, runs()) for p in progs], "random programs")


def check(pid):
    chk = Check("C18")
    fut = design(chk, "C18")
    with concurrent.futures.ThreadPoolExecutor(2) as ex:
        a = ex.submit(build, chk)
        b = ex.submit(chk.build, [HARN + "/concurrent_main.cpp", HARN + "/control.cpp"], "free", "tsan", "-O0", ["-DFREE_RUNNING"])
        exe, free = a.result(), b.result()
    if not exe or not free:
        return chk.compile_failed()
    reg.NAMES[:] = json.loads(chk.run(exe, ["names"])[1])["K"]
    part(chk, "C18", exe, 100000 if THOROUGH else 300, 1500 if THOROUGH else 160, 1500 if THOROUGH else 50, 60 if THOROUGH else 8)
    progs = [Gen(chk.rng, dict(STYLES["C18"][i % 8], values=False)).program() for i in range(800 if THOROUGH else 64)]
    races(chk, free, progs, 60 if THOROUGH else 12)
    races(chk, free, list(mixes()), 60 if THOROUGH else 12)
    for f in fut:
        f.result()
    return chk.finish()


# small universes for the design: programs of two threads, deferred definitions, prefix, whether calls are single steps
def universes(pid):
    A, B = [K(1), E_], [K(2), E_]
    f0, g0 = op("methodBy", 0, n="f"), op("obs", 0, m="eachMethod")
    if pid == "C18":
        return [([[op("nsx", n="n"), op("obs", 0, m="nsCount")], [op("nsx", n="m"), op("obs", 0, m="ns0")], [op("method", 0, 1, "f"), f0], [op("method", 0, 2, "f"), g0], [op("prop", 0, 1, "p"), op("propBy", 0, n="p")],
                  [op("prop", 0, 2, "p"), op("prop", 0, 1, "f")], [op("attr", 1, n="a"), op("attr", 2, n="b")], [op("attr", 3, n="b"), op("obs", 0, n="a", m="attrBy")], [op("enum", 1, n="E"), op("elem", 1, n="a")],
                  [op("enum", 1, n="E"), op("elem", 2, n="a")], [op("creg", 1, 1), op("cuse", 1)], [op("creg", 1, 2), op("chas", 1)], [op("cunreg", 1), op("cuse", 1)], [op("find", 1), f0]], [], [], True),
                ([[op("clsx", 1, n="A")], [op("clsx", 1, n="B"), op("find", 1)], [op("clsx", 2, n="A"), op("find", 2)], [K(2), op("base", l=[1])], [op("inherits", 2, 1), op("obs", 1, m="derivedCount")], [op("obs", 0, m="eachClass"), op("find", 1)],
                  [op("obs", 1, n="m_constructor", m="ctor")], [op("methodBy", 2, n="f")], [K(1), op("method", 0, 1, "f")]], [], [], False),
                ([[K(4), op("base", l=[2, 3])], [K(2), op("base", l=[1])], [K(3), op("base", l=[1])], [op("inherits", 4, 1)], [op("methodBy", 4, n="f")], [K(1), op("method", 0, 1, "f")], [K(2), op("method", 0, 2, "f")], [op("obs", 1, m="derivedCount"), op("obs", 4, m="baseCount")]],
                 [], A + B + [K(3), E_, K(4), E_], False)]
    mutual = [[op("obs", 2, m="methodCount"), op("method", 0, 1, "f")], [op("obs", 1, m="methodCount"), op("method", 0, 2, "g")], [op("method", 0, 1, "f"), op("throw")], [K(5), op("lazy", 1)]]
    obs = [[op("obs", 1, m="methodCount")], [op("obs", 2, m="methodCount")], [op("methodBy", 1, n="f"), op("obs", 2, m="eachMethod")], [op("force", 0)], [op("find", 1), op("methodBy", 2, n="f")], [op("inherits", 2, 1)]]
    two = [K(1), op("lazy", 1), E_, K(2), op("lazy", 2), E_]
    return [(obs, mutual, two, False), (obs + [[K(1), op("method", 0, 3, "f")]], [mutual[2], mutual[1]], two, False),
            (obs + [[K(1), op("lazy", 2), op("obs", 0, m="attrCount")]], [[op("method", 0, 1, "f")], [op("attr", 1, n="a"), op("obs", 2, m="attrCount")]], [K(1), op("lazy", 1), E_, K(2), op("base", l=[1]), E_], False)]


CFG = """SPECIFICATION Fair
CONSTANTS Progs <- TheProgs
LZ <- TheLazy
Prefix <- ThePrefix
Exclusive = %s
Sequential = %s
INVARIANT Consistent
INVARIANT InTheEnd
INVARIANT OneAtATime
INVARIANT Looking
INVARIANT NoDeadlock
PROPERTY Monotone
PROPERTY Termination
"""


def design(chk, pid, workers=2):
    fut = []
    for i, (progs, lz, prefix, seq) in enumerate(universes(pid)):
        t = reg.tla
        mod = "ConcurrentRun%d" % i
        ops = lambda l: "<<" + ", ".join(map(t, l)) + ">>"
        body = "---- MODULE %s ----\nEXTENDS ConcurrentMC\nTheProgs == {%s}\nTheLazy == <<%s>>\nThePrefix == %s\n====\n" % (mod, ",\n".join(map(ops, progs)), ",\n".join(map(ops, lz)), ops(prefix))
        fut.append(chk.design_async(mod, CFG % ("TRUE", "TRUE" if seq else "FALSE"), "Concurrent universe %d" % i, extra={mod: body}, workers=workers))
        if pid == "C16" and i == 0:
            # definitions locked one by one would wait for each other
            fut.append(chk.design_async(mod, (CFG % ("FALSE", "FALSE")).replace("PROPERTY Termination\n", ""), "a lock per definition deadlocks", expect_ok=False, extra={mod: body}, workers=workers))
    return fut
