"""C09, C10, C12, C17 and the sequential part of C16 (spec/Registry.tla): definition programs."""
from vlib import *

NCLS = 5
NAMES = []
BASES = {2: [[1]], 3: [[1], [5], [1, 5], [5, 1]], 4: [[2], [3], [2, 3], [3, 2]]}
NS = ["n", "nn", "m"]
CN = ["A", "B", "AA"]
MN = ["f", "ff", "g", "f0"]
PN = ["p", "pp", "f"]
EN = ["E", "EE"]
VN = ["a", "b", "aa", "", "c"]
OBS0 = ["nsCount", "ns0", "classCount", "class0", "propCount", "prop0", "methodCount", "method0", "enumCount", "enum0", "ctorCount", "ctor0",
        "attrCount", "attrName0", "attr0", "eachClass", "eachMethod", "eachAttr", "dflt", "copy", "move", "force"]
OBSK = ["baseCount", "base0", "derivedCount", "derived0"]
OBSN = {"elemCount": EN, "elem0": EN, "eachElem": EN, "nsBy": NS, "classBy": CN, "enumBy": EN, "attrBy": VN}


def op(name, a=0, b=0, n="", m="", l=()):
    return dict(op=name, a=a, b=b, n=n, m=m, l=list(l))


def line(o):
    return "\t".join([o["op"], str(o["a"]), str(o["b"]), o["n"], o["m"], ",".join(map(str, o["l"])), json.dumps(o)])


def short(o):
    return " ".join(str(x) for x in (o["op"], o["a"] or "", o["b"] or "", repr(o["n"]) if o["n"] else "", o["m"], o["l"] or "") if x != "")


class Gen:
    """Random definition programs. Only keeps what is needed to stay within the interface (kind of scope, nesting)."""

    def __init__(self, rng, names, style):
        self.rng, self.names, self.style = rng, names, style
        self.nlazy = 0

    def sig(self, k, a, n):
        K, KC = (self.names[2 * (k - 1)], self.names[2 * (k - 1) + 1]) if k else ("", "")
        return n + ["()", "(int)", "(int, char)", "(%s)" % K, "(%s, int)" % KC][a]

    def query_name(self, k):
        r = self.rng
        n = r.choice(MN)
        x = r.random()
        if x < 0.45:
            return n
        if x < 0.85:
            return self.sig(r.randrange(1, NCLS + 1), r.randrange(5), n)
        return r.choice([n + "(", n + "()", n + "(int", n[:1] + "x", "zz", n + "(int,char)", "(int)", n + "(int)x"])

    def query(self, nco, w):
        r = self.rng
        c = r.randrange(1, nco + 1)
        kind = r.choice(w)
        if kind == "dump":
            return op("dump", c)
        if kind == "lookup":
            x = r.random()
            if x < 0.6:
                return op("methodBy", c, n=self.query_name(0))
            if x < 0.85:
                return op("propBy", c, n=r.choice(PN + ["zz"]))
            return op("obs", c, n=r.choice(["constructor", "constructor(int)", "make", "make(int, char)", "make(int)", "d_constructor", "c_constructor", "m_constructor", "", "con", "constructor("]), m="ctor")
        if kind == "inherits":
            return op("inherits", c, r.randrange(1, NCLS + 1))
        if kind == "find":
            return op("find", r.randrange(1, NCLS + 1))
        if kind == "force":
            return op("force", c)
        what = r.choice(OBS0 + OBSK + list(OBSN))
        return op("obs", c, n=r.choice(OBSN[what] + ["zz"]) if what in OBSN else "", m=what)

    def body(self, kind, length, depth, lazies, level, top):
        """operations within a scope of the given kind (0: namespace, k: class k); returns list"""
        r, st = self.rng, self.style
        ops = []
        stack = [(kind, False)]
        lvl = level
        for _ in range(length):
            k, has_enum = stack[-1]
            can_open = lvl < 3 if k == 0 else lvl < 2
            choices = ["attr"] * st.get("attr", 1) + ["enum"] * st.get("enum", 1) + ["method"] * st.get("method", 1) + ["prop"] * st.get("prop", 1) \
                + ["query"] * st.get("query", 3)
            if has_enum:
                choices += ["elem"] * st.get("enum", 1) * 3
            if k:
                choices += ["ctor"] * st.get("ctor", 1)
                if k in BASES:
                    choices += ["base"] * st.get("base", 1) * 2
            if can_open:
                choices += ["class"] * st.get("class", 3)
                if k == 0:
                    choices += ["ns"] * st.get("ns", 2)
            if len(stack) > 1:
                choices += ["end"] * st.get("end", 3)
            if depth and st.get("lazy"):
                choices += ["lazy"] * st["lazy"]
            if not top and st.get("throw") and r.random() < st["throw"]:
                ops.append(op("throw"))
                break
            c = r.choice(choices)
            if c == "attr":
                ops.append(op("attr", r.randrange(1, 40), n=r.choice(VN)))
            elif c == "elem":
                ops.append(op("elem", r.randrange(1, 40), n=r.choice(VN)))
            elif c == "enum":
                ops.append(op("enum", 1, n=r.choice(EN)))
                stack[-1] = (k, True)
            elif c == "method":
                a = r.randrange(5 if k else 3)
                n = r.choice(MN)
                ops.append(op("method", a, r.randrange(1, 4), n))
            elif c == "prop":
                ops.append(op("prop", r.randrange(2 if k else 1), r.randrange(1, 4), r.choice(PN + [""] * (r.random() < .1))))
            elif c == "ctor":
                a, n = r.randrange(4), r.choice(["constructor", "make"])
                if a == 2:
                    n = "d_constructor"
                elif a == 3:
                    n = "c_constructor"
                ops.append(op("ctor", a, 0, n, n + "(int)" if a == 0 else n + "(int, char)" if a == 1 else n))
            elif c == "base":
                ops.append(op("base", l=r.choice(BASES[k])))
            elif c in ("class", "ns"):
                if c == "ns":
                    o = op("ns", n=r.choice(NS))
                    nk = 0
                else:
                    nk = r.choice([x for x in range(1, NCLS + 1) if x != k])
                    # often the same name for the same class, so that programs get somewhere
                    o = op("class", nk, n=(CN + ["C4", "C5"])[nk - 1] if r.random() < st.get("tidy", 0.6) else r.choice(CN))
                ops.append(o)
                stack.append((nk, False))
                lvl += 1
            elif c == "end":
                ops.append(op("end"))
                stack.pop()
                lvl -= 1
                if len(stack):
                    stack[-1] = (stack[-1][0], False)
            elif c == "lazy":
                i = len(lazies)
                lazies.append(None)
                lazies[i] = self.body(k, r.randrange(1, 6), depth - 1, lazies, 0 if k == 0 else 1, False)
                ops.append(op("lazy", i + 1))
            else:
                ops.append(self.query(r.randrange(1, 7), st["q"]))
        return ops


def random_script(rng, names, style):
    lazies = []
    main = Gen(rng, names, style).body(0, style.get("length", 40), style.get("depth", 0), lazies, 0, True)
    for _ in range(3 + 1):     # leave open scopes, run what is still pending, look at everything
        main.append(op("end"))
    if rng.random() < 0.5:
        main.append(op("force", 1))
    else:
        for c in range(1, 9):
            main.append(op("dump", c))
    for c in range(1, 10):
        main.append(op("dump", c))
    return dict(lz=lazies, ops=main)


def firsts():
    """a pending definition which defines something of every kind, and every observation as the first one"""
    queries = lambda c: [op("obs", c, m=w) for w in OBS0 + OBSK] + [op("obs", c, n=n, m=w) for w in OBSN for n in OBSN[w]] \
        + [op("obs", c, n=n, m="ctor") for n in ("make", "make(int)", "d_constructor", "zz")] + [op("methodBy", c, n=n) for n in ("f", "f()", "ff", "zz")] + [op("propBy", c, n=n) for n in ("p", "zz")] \
        + [op("inherits", c, k) for k in range(1, NCLS + 1)] + [op("force", c), op("dump", c)] + [op("find", k) for k in range(1, NCLS + 1)]
    things = [op("attr", 1, n="a"), op("class", 2, n="B"), op("end"), op("method", 0, 1, "f"), op("prop", 0, 1, "p"), op("enum", 1, n="E"), op("elem", 1, n="a"), op("elem", 2, n="b")]
    bodies = [[op("ns", n="m"), op("end")] + things, [op("ctor", 0, 0, "make", "make(int)"), op("base", l=[1]), op("base", l=[5])] + things, [op("throw")], things + [op("throw")]]
    plain = [op("class", 1, n="A"), op("end"), op("class", 5, n="C5"), op("end"), op("class", 3, n="AA"), op("end"), op("class", 4, n="C4"), op("base", l=[3]), op("end"), op("ns", n="n"), op("end")]
    for scope, at, kinds in ((op("ns", n="n"), 6, (1, 3, 4)), (op("class", 3, n="AA"), 4, (2, 3, 4)), (op("class", 1, n="A"), 2, (4,))):
        for b in kinds:
            for c in ([at] if scope["op"] == "ns" else [at, 5, 3] if at == 4 else [at, 4]):
                for q in queries(c):
                    yield dict(lz=[bodies[b - 1]], ops=plain + [scope, op("lazy", 1), op("end"), q, q] + [op("dump", c) for c in range(2, 8)])


def text(sc):
    out = []
    for l in sc["lz"]:
        out.append("lazy-body")
        out += map(line, l)
    out.append("main")
    out += map(line, sc["ops"])
    out.append("---")
    return "\n".join(out) + "\n"


def conform(chk, exe, scripts, judge, what):
    def observe(some):
        parts = [some[i::NCPU] for i in range(NCPU)]
        with concurrent.futures.ThreadPoolExecutor(NCPU) as ex:
            outs = list(ex.map(lambda p: chk.run(exe, [], "".join(map(text, p)).encode()), parts))
        res = [None] * len(some)
        for i, (p, (rc, out, err)) in enumerate(zip(parts, outs)):
            recs = []
            for l in out.splitlines():
                try:
                    recs.append(json.loads(l))
                except ValueError:
                    pass
            if len(recs) != len(p):
                recs = recs[:len(p)] + [dict(crash=rc)] * (len(p) - len(recs))
            for j, x in enumerate(recs):
                if "crash" in x:
                    x["err"] = err[:3000]
                res[i + j * NCPU] = x
        return res

    def judged(some):
        res = observe(some)
        good = [i for i, x in enumerate(res) if "crash" not in x]
        bads = {i: dict(why=["crash (status %s)" % x["crash"]], l=0, fields=[]) for i, x in enumerate(res) if "crash" in x}
        r = None
        if good:
            r = chk.validate("RegistryTrace", "SPECIFICATION Spec\nCONSTANT Judge = {%s}\n" % ", ".join('"%s"' % j for j in judge),
                        dict(SCRIPTS=[dict(n=NCLS, names=NAMES, lz=some[i]["lz"], ev=res[i]["ev"]) for i in good]), heap="10g")
            for b in tagged(r["out"], "BAD"):
                bads.setdefault(good[b["s"] - 1], b)
            for s in r["undef"]:
                bads[good[s - 1]] = dict(why=["observations outside of the specification's domain"], l=0, fields=[])
        return res, bads, r
    res, bads, r = judged(scripts)
    if r:
        chk.cov["states"] += r["distinct"]
        chk.cov["transitions"] += r["generated"]
    nops = sum(len(s["ops"]) for s in scripts)
    chk.cov["traces_validated_against_impl"] += len(scripts)
    chk.cov["operations"] = chk.cov.get("operations", 0) + nops
    outs = {}
    for x in res:
        for e in x.get("ev", ()):
            k = e["o"]["op"] + ("" if e["out"] == "ok" else ":" + e["out"])
            outs[k] = outs.get(k, 0) + 1
    chk.cov.setdefault("operations_by_outcome", {}).update({k: chk.cov.get("operations_by_outcome", {}).get(k, 0) + n for k, n in outs.items()})
    chk.cov["deferred_definitions_run"] = chk.cov.get("deferred_definitions_run", 0) + sum(l["e"] == "run" for x in res for e in x.get("ev", ()) for l in e["log"])
    chk.log("%s: %d programs, %d operations, %d rejected" % (what, len(scripts), nops, len(bads)))
    if res and "ev" in res[0]:
        chk.sample(dict(program=[short(o) for o in scripts[0]["ops"][:12]], last=res[0]["ev"][-1]))
    if not bads:
        return
    again = sorted(bads)[:8]
    res2, bads2, _ = judged([scripts[i] for i in again])
    for m, i in enumerate(again):
        if m not in bads2:
            continue
        b, x = bads2[m], res2[m]
        ops = scripts[i]["ops"]
        steps = ops[:b["l"]] if b["l"] else ops
        e = x["ev"][b["l"] - 1] if b["l"] and "ev" in x else None
        diff = ""
        if e and b["fields"]:
            f = sorted(b["fields"])[0]
            diff = "%s: got %s, expected %s" % (f, json.dumps(e["look"].get(f)), json.dumps(b["look"][0].get(f)))
        elif e:
            diff = "got %s %s, expected %s %s" % (e["out"], e["res"], b["out"], b["res"])
            if e["log"] != b["log"]:
                diff += "; deferred definitions did %s, expected %s" % (brief(e["log"]), brief(b["log"]))
        chk.violation("%s:%s" % (steps[-1]["op"] if b["l"] else "program", "+".join(sorted(b["why"])).replace(" ", "_")),
                      "%s: operation %d (%s): %s differ from the specification; %s" % (what, len(steps), short(steps[-1]), sorted(b["why"]), diff or x.get("err", "")[:400]),
                      dict(program=[short(o) for o in steps], deferred=[[short(o) for o in l] for l in scripts[i]["lz"]], observed=e, why=b["why"]))


def brief(log):
    return ["%s %s %s %s" % (l["e"], l["o"], l["out"], l["res"]) for l in log][:12]


STYLES = {
    "C09": [dict(q=["dump", "obs", "find"], lazy=0), dict(q=["dump", "obs"], lazy=1, depth=2, length=30)],
    "C10": [{"q": ["dump", "find", "inherits"], "class": 6, "base": 4, "method": 0, "prop": 0, "enum": 0, "tidy": 0.75, "query": 2},
            {"q": ["dump", "find", "inherits"], "class": 6, "base": 4, "method": 0, "prop": 0, "enum": 0, "tidy": 0.4, "query": 2},
            {"q": ["dump", "find", "inherits"], "class": 5, "base": 4, "method": 0, "prop": 0, "enum": 0, "tidy": 0.85, "query": 1, "lazy": 2, "depth": 2, "throw": 0.1}],
    "C12": [{"q": ["lookup"], "class": 5, "base": 4, "method": 5, "prop": 3, "enum": 0, "ctor": 2, "attr": 0, "tidy": 0.95, "query": 9, "length": 60, "ns": 1},
            {"q": ["lookup"], "class": 5, "base": 4, "method": 5, "prop": 3, "enum": 0, "ctor": 1, "attr": 0, "tidy": 0.95, "query": 6, "length": 50, "ns": 0, "lazy": 1, "depth": 1}],
    "C17": [{"q": ["dump", "obs"], "class": 1, "base": 0, "method": 1, "prop": 1, "enum": 4, "attr": 6, "query": 2}],
    "C16": [{"q": ["obs", "dump", "lookup", "force", "find", "inherits"], "class": 3, "base": 2, "lazy": 5, "depth": 4, "tidy": 0.85, "throw": 0.0, "length": 40, "query": 3},
            {"q": ["obs", "lookup", "force"], "class": 4, "base": 2, "lazy": 5, "depth": 4, "tidy": 0.85, "throw": 0.15, "length": 40, "query": 3}],
}
JUDGE = {"C09": ["list"], "C10": ["class", "base"], "C12": ["lookup"], "C17": ["attr"], "C16": ["lazy"]}


# small universes: operations, deferred definitions, containers, items (see RegistryMC.tla)
def observe(*cs):
    return [op("obs", c, m="methodCount") for c in cs]


NSC = [op("ns", n="n"), op("end")]
K = lambda k, n=None: op("class", k, n=n or CN[k - 1])
END = op("end")
ALL4 = [K(1), END, K(2), END, K(3), END, op("class", 4, n="C4"), END]
K4 = op("class", 4, n="C4")
RE = [K(1), K(2), K(3), K4, END]
DIAMOND = [K(1), END, K(2), op("base", l=[1]), END, K(3), op("base", l=[1]), END, K4, op("base", l=[2, 3]), END]
CHAIN = [K(1), END, K(2), op("base", l=[1]), END, K4, op("base", l=[2]), END]
# per universe: operations, deferred definitions, prefix, (containers, items, runs) for replay, the same for design only
UNIVERSE = {
    "C09": [(NSC + [op("ns", n="m"), K(1), op("method", 0, 1, "f"), op("method", 1, 2, "f"), op("method", 0, 2, "f"), op("prop", 0, 1, "p")], [], [], (3, 2, 0), (4, 3, 0)),
            (NSC + [K(1), K(2), K(2, "A"), op("enum", 1, n="E"), op("enum", 1, n="EE"), op("elem", 1, n="a"), op("ctor", 0, 0, "make", "make(int)")], [], [], (3, 2, 0), (4, 3, 0))],
    "C10": [([K(1), K(2), K(1, "B"), K(2, "A"), K(3, "A"), op("ns", n="n"), END, op("base", l=[1])], [], [], (4, 0, 0), (5, 0, 0)),
            ([END, K(1), op("class", 2, n="B"), op("class", 3, n="AA"), op("class", 5, n="C5"), op("base", l=[1, 5]), op("base", l=[5, 1]), op("base", l=[1])], [], [], (4, 0, 0), (5, 0, 0)),
            (RE + [op("base", l=l) for l in ([1], [2], [2, 3], [3, 2], [1, 5])] + [op("inherits", a, b) for a in (3, 4, 5) for b in (1, 2, 3)], [], ALL4, (5, 0, 0), (5, 0, 0)),
            ([END, K(1), K(2), op("lazy", 1), op("lazy", 2), op("base", l=[1]), op("dump", 2), op("dump", 3)], [[K(1), op("throw")], [K(2), op("base", l=[1]), END, K(2, "A")]], [], (3, 0, 2), (4, 0, 3))],
    "C12": [([END, K(1), K(2), op("base", l=[1]), op("method", 0, 1, "f"), op("method", 1, 2, "f"), op("prop", 0, 1, "p")]
             + [op("methodBy", c, n=q) for c in (2, 3) for q in ("f", "f()", "f(int)", "f(")] + [op("propBy", c, n="p") for c in (2, 3)], [], [], (3, 2, 0), (4, 3, 0)),
            (RE + [op("method", 0, 1, "f"), op("method", 1, 2, "f"), op("method", 0, 3, "ff"), op("prop", 1, 1, "p")]
             + [op("methodBy", 5, n=q) for q in ("f", "f()", "ff", "f(int)")] + [op("methodBy", 3, n="f"), op("propBy", 5, n="p")], [], DIAMOND, (5, 2, 0), (5, 4, 0)),
            (RE + [op("method", 0, 1, "f"), op("prop", 0, 2, "f"), op("lazy", 1), op("lazy", 2), op("methodBy", 4, n="f"), op("propBy", 4, n="f"), op("methodBy", 3, n="f")],
             [[op("method", 0, 2, "f")], [op("prop", 1, 3, "f"), op("method", 1, 3, "f")]], CHAIN, (4, 1, 2), (4, 3, 2))],
    "C17": [([op("attr", v, n=n) for v in (1, 2) for n in ("a", "b", "")] + [op("enum", 1, n="E"), op("elem", 1, n="a"), op("elem", 2, n="a"), op("elem", 4, n="b")] + NSC, [], [], (2, 3, 0), (2, 5, 0)),
            ([op("attr", v, n=n) for v in (1, 2) for n in ("a",)] + [op("enum", 1, n="E"), op("enum", 1, n="EE"), op("elem", 1, n="a"), K(1), END, op("method", 0, 1, "f")], [], [], (2, 3, 0), (2, 4, 0))],
    "C16": [([op("lazy", 1), op("lazy", 2)] + NSC + observe(1, 2) + [op("force", 1), op("ns", n="m")],
             [[op("method", 0, 1, "f"), op("obs", 1, m="methodCount"), op("ns", n="n")], [op("obs", 2, m="methodCount"), op("throw")]], [], (3, 0, 1), (3, 1, 3)),
            ([op("lazy", 1), op("lazy", 2), op("lazy", 3)] + NSC + observe(1, 2) + [op("force", 1), K(1)],
             [[op("ns", n="m"), op("lazy", 2), END, op("obs", 1, m="nsCount")], [op("obs", 1, m="methodCount"), op("obs", 2, m="methodCount"), op("lazy", 3)], [K(1), op("method", 0, 1, "f")]], [], (3, 0, 2), (4, 1, 3)),
            ([op("lazy", 1), op("lazy", 2), K(1), K(2), END, op("inherits", 3, 1), op("inherits", 2, 2), op("methodBy", 3, n="f"), op("methodBy", 2, n="f"), op("propBy", 3, n="p")],
             [[op("base", l=[1]), op("methodBy", 2, n="f"), op("method", 0, 1, "g")], [op("method", 0, 2, "f"), op("methodBy", 3, n="f")]], ALL4[:4], (3, 2, 2), (3, 2, 3)),
            ([op("lazy", 1), op("lazy", 2), op("lazy", 3), op("ns", n="n"), op("ns", n="m"), END] + observe(2, 3) + [op("force", 1), op("force", 2)],
             [[op("obs", 3, m="methodCount"), op("method", 0, 1, "f")], [op("obs", 2, m="methodCount"), op("obs", 3, m="methodCount"), op("method", 0, 2, "g")], [op("obs", 3, m="methodCount"), op("obs", 1, m="methodCount"), op("throw")]],
             [op("ns", n="n"), END, op("ns", n="m"), END], (3, 2, 2), (3, 2, 3))],
}
RUNCFG = """SPECIFICATION Spec
CONSTANTS Ops <- TheOps
LZ <- TheLazy
Prefix <- ThePrefix
Containers = %d
Items = %d
MaxRuns = %d
VIEW View
CONSTRAINT Bounded
INVARIANT Hold
PROPERTY Laws
"""


def tla(o):
    return 'O("%s", %d, %d, "%s", "%s", <<%s>>)' % (o["op"], o["a"], o["b"], o["n"], o["m"], ", ".join(map(str, o["l"])))


def explore(chk, pid, i, emit):
    ops, lz, prefix, small, large = UNIVERSE[pid][i]
    mod = "RegistryRun%d%s" % (i, "" if emit else "Large")
    body = "---- MODULE %s ----\nEXTENDS RegistryMC\nTheOps == {%s}\nTheLazy == <<%s>>\nThePrefix == <<%s>>\n====\n" % (
        mod, ",\n".join(map(tla, ops)), ",\n".join("<<" + ", ".join(map(tla, l)) + ">>" for l in lz), ", ".join(map(tla, prefix)))
    r = chk.design(mod, RUNCFG % (small if emit else large) + ("ACTION_CONSTRAINT Emit\n" if emit else ""),
                   "Registry universe %d%s" % (i, "" if emit else " (large)"), extra={mod: body}, workers=4, timeout=3000)
    return sorted({(e["s"], json.dumps(e["o"], sort_keys=True), e["t"]) for e in tagged(r["out"], "EDGE")}), tagged(r["out"], "INIT")


def from_model(chk, pid, exe, limit):
    n = len(UNIVERSE[pid])
    with concurrent.futures.ThreadPoolExecutor(2) as ex:
        graphs = list(ex.map(lambda i: explore(chk, pid, i, True), range(n)))
    scripts = []
    for (edges, init), (ops, lz, prefix, small, large) in zip(graphs, UNIVERSE[pid]):
        sc, left = edge_cover(edges, init[0], chk.rng, max_len=60, limit=limit // n)
        chk.cov["model_edges"] = chk.cov.get("model_edges", 0) + len(edges)
        chk.cov["model_edges_replayed"] = chk.cov.get("model_edges_replayed", 0) + len(edges) - left
        scripts += [dict(lz=lz, ops=prefix + [json.loads(o) for o in s] + [op("dump", c) for c in range(1, small[0] + 3)]) for s in sc]
    conform(chk, exe, scripts, JUDGE[pid], "transitions of the model")
    if THOROUGH:
        for i in range(n):
            explore(chk, pid, i, False)


def run(pid, what, number):
    chk = Check(pid)
    fut, ctl = [], None
    if pid == "C16":                # also by several threads
        import check_concurrent as cc
        fut = cc.design(chk, pid)
        ctl = cc.build(chk)
        if not ctl:
            return chk.compile_failed()
    exe = chk.build([os.path.join(HARN, "registry_main.cpp")])
    if not exe:
        return chk.compile_failed()
    global NAMES
    NAMES = names = json.loads(chk.run(exe, ["names"])[1])["K"]
    rng = random.Random(SEED * 7919 + int(pid[1:]))
    scripts = [random_script(rng, names, STYLES[pid][i % len(STYLES[pid])]) for i in range(number * (8 if THOROUGH else 1))]
    conform(chk, exe, scripts, JUDGE[pid], "random programs")
    if pid == "C16":
        conform(chk, exe, list(firsts()), JUDGE[pid], "first observations")
    from_model(chk, pid, exe, 60000 if THOROUGH else 15000)
    if ctl:
        cc.part(chk, pid, ctl, 100000 if THOROUGH else 60, 1500 if THOROUGH else 80, 1500 if THOROUGH else 40, 60 if THOROUGH else 8)
    for f in fut:
        f.result()
    return chk.finish()


def c09(pid):
    return run(pid, "metadata containers: unique, ordered, stable, named", 1500)


def c10(pid):
    return run(pid, "class registration and base classes", 1500)


def c12(pid):
    return run(pid, "member lookup", 1500)


def c17(pid):
    return run(pid, "attributes and enum elements", 1500)


def c16(pid):
    return run(pid, "deferred definitions", 1500)
