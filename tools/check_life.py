"""C01, C02: variants as values and the lifetime of what they hold (spec/VariantLife.tla)."""
from vlib import *


def row(copy=1, move=1, dflt=1, n=1, live=1, thr=0, arr=0, name=""):
    return dict(copy=bool(copy), move=bool(move), dflt=bool(dflt), n=n, live=live, thr=bool(thr), arr=bool(arr), name=name)


# in the order of harness/life_main.cpp
KINDS = [row(name="small object"), row(thr=1, name="large object"), row(thr=1, name="over-aligned object"),
         row(move=0, thr=1, name="copy-only large object"), row(copy=0, name="move-only small object"),
         row(copy=0, thr=1, name="move-only large object"), row(n=2, arr=1, name="array of 2 small objects"),
         row(n=3, thr=1, arr=1, name="array of 3 large objects"), row(thr=1, dflt=0, name="object without default constructor"),
         row(live=0, name="std::string"), row(live=0, move=0, name="int"), row(live=0, name="std::shared_ptr"),
         row(live=0, copy=0, name="std::unique_ptr"), row(live=0, name="std::vector"), row(live=0, move=0, name="double"),
         row(live=0, move=0, name="enum"), row(move=0, name="copy-only small object"),
         row(n=2, thr=1, arr=1, name="array of 2 over-aligned objects"), row(live=0, n=2, arr=1, name="std::string[2]"),
         row(live=0, move=0, name="large POD"), row(live=0, move=0, name="long const*"), row(name="small over-aligned object"),
         row(copy=0, n=2, thr=1, arr=1, name="array of 2 move-only objects"), row(live=0, move=0, n=4, arr=1, name="int[4]")]
CONVS = [(1, 2), (2, 1), (10, 2), (2, 10), (1, 6), (11, 9), (15, 3)]
CS = 17
TRACKED = [k for k in range(1, 25) if KINDS[k - 1]["live"]]


def tables(ks):
    rows = [{f: KINDS[k - 1][f] for f in ("copy", "move", "dflt", "n", "live", "thr", "arr")} for k in ks]
    conv = [[ks.index(a) + 1, ks.index(b) + 1] for a, b in CONVS if a in ks and b in ks] or [[0, 0]]
    return rows, conv


CFG = """SPECIFICATION Spec
CONSTANTS Faults = %s
Pool = %s
Tokens = %s
INVARIANT TypeOK
PROPERTY Laws
VIEW View
"""


def explore(chk, ks, faults, pool, emit, tokens="{1, 2}"):
    """The model for the given kinds; -> edges with the kinds of the driver"""
    rows, conv = tables(ks)
    r = chk.design("VariantLifeMC", CFG % (faults, "TRUE" if pool else "FALSE", tokens)
                   + ("ACTION_CONSTRAINT Emit\n" if emit else ""),
                   "VariantLife, %s" % ", ".join(KINDS[k - 1]["name"] for k in ks), data=dict(KINDS=rows, CONVS=conv), workers=4)
    edges, init = [], None
    for e in tagged(r["out"], "EDGE"):
        o = e["o"]
        o = (o["op"], o["a"], o["b"], ks[o["k"] - 1] if o["op"] in WITHK else 0, o["t"], o["w"], o["f"])
        edges.append((json.dumps(e["s"], sort_keys=True), o, json.dumps(e["t"], sort_keys=True)))
    # histories are scripted ahead: steps with an uncertain outcome are left to the random histories
    targets = {}
    for a, o, b in edges:
        targets.setdefault((a, o), set()).add(b)
    edges = sorted({(a, o, b) for a, o, b in edges if len(targets[a, o]) == 1})
    np = 1 if pool else 0
    init = json.dumps(dict(v=[dict(f="none", k=0, t=0)] * 2, ext=[1] * len(ks), pool=[dict(f="none", k=0, t=0)] * np), sort_keys=True)
    return edges, init


WITHK = {"mk", "mkc", "in", "inm", "rf", "crf", "cv", "x", "mc"}


class Model:
    """Tracks which operations are enabled while generating random histories (the judge is TLC)."""
    def __init__(self, nv, np, ks, faults):
        self.v, self.pool, self.ks, self.faults = [("none", 0)] * nv, [0] * np, ks, faults

    def step(self, rng):
        nv = len(self.v)
        while True:
            op = rng.choice(["mk", "mkc", "in", "inm", "rf", "crf", "cp", "cp", "mv", "sw", "cl", "re", "set", "ss", "sm", "rr", "to", "cv", "x"]
                            + (["mc", "mc", "md"] if self.pool else []))
            a, b, k, t, w, f = rng.randint(1, nv), rng.randint(1, nv), rng.choice(self.ks), rng.randint(1, 9), 0, 0
            form, held = self.v[a - 1]
            kind = KINDS[k - 1]
            hk = KINDS[held - 1] if held else None
            if op in ("mk", "inm", "rf", "crf", "mkc", "in"):
                if op in ("mkc", "in") and not kind["copy"]:
                    continue
                w = rng.randint(0, 1)
            if op in ("cp", "mv", "sw", "mc", "cl", "cv"):
                w = rng.randint(0, {"cl": 3, "mc": 2}.get(op, 1))
            if op in ("set", "ss", "to") and form == "none" or op == "ss" and not hk["copy"] or op == "to" and hk["arr"]:
                continue
            if op == "sm" and form not in ("val", "ref") or op == "rr" and form != "val" or op == "cv" and kind["arr"]:
                continue
            if op == "cv":
                if held and rng.random() < .7:
                    c = [y for x, y in CONVS if x == held and y in self.ks]
                    k = rng.choice(c) if c else k
                    kind = KINDS[k - 1]
                    if kind["arr"]:
                        continue
            if op == "mc":
                a = rng.randint(1, len(self.pool))
                k = rng.choice([x for x in self.ks if KINDS[x - 1]["live"]])
                kind = KINDS[k - 1]
                if self.pool[a - 1]:
                    continue
            if op == "md":
                a = rng.randint(1, len(self.pool))
                if not self.pool[a - 1]:
                    continue
            if self.faults and rng.random() < .35:
                f = rng.randint(1, 5)
                src = kind if op in WITHK else hk
                if op in ("rf", "crf", "mv", "sw", "cl", "re", "set", "rr", "x", "md") or not src or not src["thr"]:
                    f = 0
                elif (op in ("inm", "sm") or op == "mc" and w == 2) and src["n"] > 1:
                    f = 0
                elif op == "mc" and w == 0 and not src["dflt"]:
                    f = 0
            return op, a, b, k if op in WITHK else 0, t, w, f

    def apply(self, o, ok=True):
        """Only to keep most of the following operations enabled; exact for everything but uncertain failures."""
        op, a, b, k, t, w, f = o
        if not ok:
            return
        i, j = a - 1, b - 1
        v = self.v
        if op in ("mk", "mkc", "in", "inm"): v[i] = ("val", k)
        elif op == "rf": v[i] = ("ref", k)
        elif op == "crf": v[i] = ("cref", k)
        elif op == "cp": v[j] = v[i]
        elif op == "mv":
            if i != j: v[j], v[i] = v[i], ("none", 0)
        elif op == "sw": v[i], v[j] = v[j], v[i]
        elif op == "cl": v[i] = ("none", 0)
        elif op in ("ss", "sm", "rr"): v[i] = ("val", v[i][1])
        elif op == "to": v[j] = ("val", v[i][1])
        elif op == "cv": v[i] = ("val", k)
        elif op == "mc": self.pool[i] = k
        elif op == "md": self.pool[i] = 0


def certain(m, o):
    """False: refused; None: cannot know (an injected fault may or may not be reached)"""
    op, a, b, k, t, w, f = o
    form, held = m.v[a - 1] if op not in ("mc", "md", "x") else ("none", 0)
    hk = KINDS[held - 1] if held else None
    if op == "cp" and (a != b or w == 1) and form == "val" and not hk["copy"]: return False
    if op == "set" and form == "cref": return False
    if op == "to" and not hk["copy"]: return False
    if op == "cv" and not (form != "none" and (held == k and hk["copy"] or (held, k) in CONVS)): return False
    if op == "mc" and (w == 0 and not KINDS[k - 1]["dflt"] or w == 1 and not KINDS[k - 1]["copy"]): return False
    return None if f else True


def random_script(rng, nv, np, ks, faults, length):
    m = Model(nv, np, ks, faults)
    out = []
    while len(out) < length:
        o = m.step(rng)
        ok = certain(m, o)
        if ok is None:
            # an uncertain outcome: follow with operations that make the state of the target certain again
            op, a, b, k, t, w, f = o
            out.append(o)
            if op == "mc":
                # the slot may hold an object or not: use it no more
                need = KINDS[k - 1]["n"] if (w != 0 or True) else 0
                m.pool[a - 1] = 0
                if f > need:
                    out.pop()
                continue
            if op in ("cp", "to"):
                a = b
            out.append(("cl", a, 1, 0, 1, rng.randint(0, 3), 0))
            m.apply(out[-1])
            continue
        out.append(o)
        m.apply(o, ok)
    return out


def fmt(scripts):
    return "\n---\n".join("\n".join(" ".join(map(str, o)) for o in s) for s in scripts).encode()


def conform(chk, exe, scripts, nv, np, judge, what, keyer=None):
    rows, conv = tables(list(range(1, 25)))

    def observe(some):
        parts = [some[i::NCPU] for i in range(NCPU)]
        with concurrent.futures.ThreadPoolExecutor(NCPU) as ex:
            outs = list(ex.map(lambda p: chk.run(exe, [str(nv), str(np)], fmt(p)) if p else (0, "", ""), parts))
        res = [None] * len(some)
        for i, (p, (rc, out, err)) in enumerate(zip(parts, outs)):
            recs, crash = [], None
            for line in out.splitlines():
                line = line.strip()
                if not line:
                    continue
                try:
                    x = json.loads(line)
                except ValueError:
                    continue          # cut off by a crash, which is reported next
                recs.append(x)
            if len(recs) != len(p) and p:
                recs = recs[:len(p)] + [dict(crash=rc)] * (len(p) - len(recs))
            for j, x in enumerate(recs):
                res[i + j * NCPU] = x
        return res

    def judge_all(some):
        res = observe(some)
        good = [i for i, x in enumerate(res) if "crash" not in x]
        bads = {i: dict(why=["crash (status %s)" % x["crash"]], l=0) for i, x in enumerate(res) if "crash" in x}
        r = None
        if good:
            r = chk.validate("VariantLifeTrace", "SPECIFICATION Spec\nCONSTANTS Judge = \"%s\"\n" % judge,
                        dict(KINDS=rows, CONVS=conv, SCRIPTS=[res[i] for i in good]), heap="10g")
            for b in tagged(r["out"], "BAD"):
                i = good[b["s"] - 1]
                if "script" in b["why"]:
                    raise ModelError("script not enabled: %s step %d of %s" % (what, b["l"], some[i][:b["l"]]))
                bads.setdefault(i, b)
            for s in r["undef"]:
                bads[good[s - 1]] = dict(why=["observations outside of the specification's domain"], l=0)
        return res, bads, r
    res, bads, r = judge_all(scripts)
    if r:
        chk.cov["states"] += r["distinct"]
        chk.cov["transitions"] += r["generated"]
    chk.cov["traces_validated_against_impl"] += len(scripts)
    chk.cov["operations"] = chk.cov.get("operations", 0) + sum(map(len, scripts))
    chk.log("%s: %d histories, %d operations, %d rejected" % (what, len(scripts), sum(map(len, scripts)), len(bads)))
    if res and "ev" in res[0]:
        chk.sample(dict(script=[" ".join(map(str, o)) for o in scripts[0][:4]], seen=res[0]["ev"][:4]))
    if not bads:
        return
    again = sorted(bads)[:8]
    res2, bads2, _ = judge_all([scripts[i] for i in again])
    for n, i in enumerate(again):
        if n not in bads2:
            continue
        b, x = bads2[n], res2[n]
        steps = scripts[i][:b["l"]] if b["l"] else scripts[i]
        last = steps[-1] if steps else ()
        seen = x["ev"][b["l"] - 1] if b["l"] and "ev" in x else None
        key = keyer(b) if keyer else "%s:%s" % ("_".join(map(str, last)), "+".join(b["why"]).replace(" ", "_"))
        used = sorted({o[3] for o in steps[-6:] if o[3]})
        chk.violation(key, "%s: after %d operations ending in %s (kinds: %s): %s differ from the specification"
                      % (what, len(steps), steps[-3:], ", ".join("%d=%s" % (k, KINDS[k - 1]["name"]) for k in used), b["why"]),
                      dict(operations=[" ".join(map(str, o)) for o in steps], observed=seen, why=b["why"]))


def scripts_of(chk, groups, faults, pool, tokens, limit):
    """Histories covering the transitions of the model for each group of kinds (up to limit operations)."""
    out = []
    with concurrent.futures.ThreadPoolExecutor(2) as ex:
        graphs = list(ex.map(lambda p: explore(chk, p, faults, pool, True, tokens), groups))
    for (edges, init), p in zip(graphs, groups):
        sc, left = edge_cover(edges, init, chk.rng, max_len=300, limit=limit)
        chk.cov["model_edges"] = chk.cov.get("model_edges", 0) + len(edges)
        chk.cov["model_edges_replayed"] = chk.cov.get("model_edges_replayed", 0) + len(edges) - left
        out += sc
    return out


def batches(chk, exe, gen, total, size, *a):
    while total > 0:
        conform(chk, exe, [gen() for _ in range(min(size, total))], *a)
        total -= size


def c01(pid):
    chk = Check(pid)
    ks = list(range(1, 25))
    design = chk.design_async("VariantLifeMC", CFG % ("{0}", "FALSE", "{1, 2}"), "VariantLife", workers=3,
                              data=dict(zip(("KINDS", "CONVS"), tables(chk.rng.sample(ks, 2)))))
    exe = chk.build([HARN + "/life_main.cpp"])
    if not exe:
        return chk.compile_failed()
    design.result()
    # every kind is paired with another one
    rest = ks[:]
    chk.rng.shuffle(rest)
    pairs = [rest[i:i + 2] for i in range(0, 24, 2)]
    pairs += [chk.rng.sample(c, 2) for c in CONVS]
    if THOROUGH:
        pairs = [[a, b] for a in ks for b in ks if a < b]
    else:
        chk.rng.shuffle(pairs)
        pairs = pairs[:4]
    step = 12
    for i in range(0, len(pairs), step):
        conform(chk, exe, scripts_of(chk, pairs[i:i + step], "{0}", False, "{1}" if i % 8 else "{2}", 12000 if not THOROUGH else 40000),
                2, 0, "values", "transitions of the model")
    gen = lambda: random_script(chk.rng, 4, 0, chk.rng.sample(ks, chk.rng.choice((2, 3, 5, 24))), False, 250)
    batches(chk, exe, gen, 500 if not THOROUGH else 12000, 500, 4, 0, "values", "random histories of 4 variants")
    chk.assumptions += ["values of a kind are told apart by a token carried by the object (1..9), not by their bytes"]
    return chk.finish()


def c02(pid):
    chk = Check(pid)
    ks = [k for k in range(1, 25) if k != CS]
    tr = [k for k in TRACKED if k != CS]
    design = chk.design_async("VariantLifeMC", CFG % ("{0, 1}", "TRUE", "{1}"), "VariantLife with faults and constructed objects", workers=3,
                              data=dict(zip(("KINDS", "CONVS"), tables(chk.rng.choice(([2, 8], [2, 1], [3, 8], [6, 1], [9, 2]))))))
    exe = chk.build([HARN + "/life_main.cpp"])
    if not exe:
        return chk.compile_failed()
    design.result()
    probe(chk, exe)
    singles = [[k] for k in (tr if THOROUGH else chk.rng.sample([2, 8, 3, 9, 23, 18], 2) + chk.rng.sample([1, 4, 5, 6, 7, 22], 1))]
    pairs = [list(p) for p in (CONVS + [(a, b) for a in tr for b in tr if a < b] if THOROUGH else [chk.rng.choice([(1, 2), (2, 1), (1, 6)])])]
    for g, pool, lim in ((singles, True, 12000), (pairs, False, 10000)):
        for i in range(0, len(g), 10):
            conform(chk, exe, scripts_of(chk, g[i:i + 10], "{0, 1, 2}" if pool else "{0, 1}", pool, "{1}", lim if not THOROUGH else 40000),
                    2, 1 if pool else 0, "all", "transitions of the model")
    gen = lambda: random_script(chk.rng, 3, 2, chk.rng.sample(ks, chk.rng.choice((1, 2, 4, 10))) + chk.rng.sample(tr, 1), True, 200)
    batches(chk, exe, gen, 500 if not THOROUGH else 12000, 500, 3, 2, "all", "random histories with injected failures")
    chk.assumptions += ["constructions and destructions are counted by values carried by tracked objects (an object whose value was moved away counts no more)",
                        "memory is counted through replaced operator new/delete, use after release by AddressSanitizer"]
    return chk.finish()


def probe(chk, exe):
    """Known finding: the moved-from object of a copy-only type held inside the variant."""
    k = CS
    scripts = [[("mk", 1, 1, k, 1, w, 0), ("cl", 1, 1, 0, 1, c, 0)] for w in (0, 1) for c in range(4)]
    scripts += [[("mkc", 1, 1, k, 1, 0, 0), ("sw", 1, 2, 0, 1, 0, 0), ("cl", 2, 1, 0, 1, 0, 0)]]
    conform(chk, exe, scripts, 2, 0, "all", "copy-only small object", keyer=lambda b: "copy-only_small:" + "+".join(sorted(b["why"])).replace(" ", "_"))
