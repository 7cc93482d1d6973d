"""C04, C05 and the conversions of C06 (spec/Convert.tla)."""
from vlib import *

TYPES = [dict(copy=c, eq=e, live=l, name=n) for n, c, e, l in (
    ("A", True, True, 1), ("B", True, True, 1), ("int", True, True, 0), ("std::string", True, True, 0), ("Base", True, True, 1),
    ("Derived", True, True, 1), ("Base*", True, True, 0), ("Derived*", True, True, 0), ("int*", True, True, 0), ("M", False, False, 1), ("N", True, False, 1))]
TARGETS = [dict(d=d, pc=p) for d, p in [(i, False) for i in range(1, 12)] + [(9, True), (7, True), (8, True)]]
TNAME = [t["name"] for t in TYPES] + ["int const*", "Base const*", "Derived const*"]
PAIRS = [(1, 2), (2, 1), (1, 3), (3, 1), (2, 4), (4, 2), (1, 1), (6, 5), (5, 1), (6, 1), (1, 5), (8, 7), (7, 8), (9, 1), (1, 9), (3, 10),
         (1, 10), (10, 3), (11, 3), (3, 11), (4, 3), (3, 4), (7, 3), (3, 3), (5, 6)]
CLASSES = {1, 2, 5, 6, 10, 11}
IMPLICIT = {(3, 1), (6, 5), (8, 7), (1, 1)}
# Derived has no operator== of its own (inherits the one of Base, which compares the same values)


def kinds(p):
    k = ["function", "lambda", "functor", "std::function", "ok lambda", "ok function"]
    if p[0] in CLASSES:
        k += ["method", "ok method"]
    if p in IMPLICIT:
        k += ["implicit"]
    return k


def line(o):
    return "%s %d %d %s %d %d" % (o["op"], o["a"], o["b"], o["k"].replace(" ", "_") or "-", o["t"], o["w"])


def conform(chk, exe, scripts, n, judge, what):
    def observe(some):
        parts = [some[i::NCPU] for i in range(NCPU)]
        with concurrent.futures.ThreadPoolExecutor(NCPU) as ex:
            outs = list(ex.map(lambda p: chk.run(exe, [str(n)], "\n---\n".join("\n".join(map(line, s)) for s in p).encode()), parts))
        res = [None] * len(some)
        ends = []
        for i, (p, (rc, out, err)) in enumerate(zip(parts, outs)):
            recs = []
            for l in out.splitlines():
                try:
                    x = json.loads(l)
                except ValueError:
                    continue
                if "end" in x:
                    continue
                recs.append(x)
            if not p:
                continue
            if len(recs) != len(p):
                recs = recs[:len(p)] + [dict(crash=rc)] * (len(p) - len(recs))
            for j, x in enumerate(recs):
                res[i + j * NCPU] = x
            if rc:
                ends.append((rc, err[:1500]))
        return res, ends

    def judged(some):
        res, ends = observe(some)
        good = [i for i, x in enumerate(res) if "crash" not in x]
        bads = {i: dict(why=["crash (status %s)" % x["crash"]], l=0) for i, x in enumerate(res) if "crash" in x}
        r = None
        if good:
            r = chk.validate("ConvertTrace", "SPECIFICATION Spec\nCONSTANT Judge = {%s}\n" % ", ".join('"%s"' % j for j in judge),
                        dict(TYPES=TYPES, TARGETS=TARGETS, SCRIPTS=[res[i] for i in good]), heap="10g")
            for b in tagged(r["out"], "BAD"):
                bads.setdefault(good[b["s"] - 1], b)
            for s in r["undef"]:
                bads[good[s - 1]] = dict(why=["observations outside of the specification's domain"], l=0)
        return res, ends, bads, r
    res, ends, bads, r = judged(scripts)
    if r:
        chk.cov["states"] += r["distinct"]
        chk.cov["transitions"] += r["generated"]
    chk.cov["traces_validated_against_impl"] += len(scripts)
    chk.cov["operations"] = chk.cov.get("operations", 0) + sum(map(len, scripts))
    chk.log("%s: %d histories, %d operations, %d rejected" % (what, len(scripts), sum(map(len, scripts)), len(bads)))
    if res and "ev" in res[0]:
        chk.sample(dict(script=[line(o) for o in scripts[0][:4]], seen=res[0]["ev"][:4]))
    if not bads and not ends:
        return
    again = sorted(bads)[:8]
    res2, ends2, bads2, _ = judged([scripts[i] for i in again] or [[]])
    if ends and ends2:
        chk.violation("exit", "%s: program with converters registered doesn't leave normally: status %s %s" % (what, ends2[0][0], ends2[0][1][:300]), ends2[0])
    for m, i in enumerate(again):
        if m not in bads2:
            continue
        b, x = bads2[m], res2[m]
        steps = scripts[i][:b["l"]] if b["l"] else scripts[i]
        seen = x["ev"][b["l"] - 1] if b["l"] and "ev" in x else None
        chk.violation("%s:%s" % (line(steps[-1]).replace(" ", "_") if steps else "", "+".join(b["why"]).replace(" ", "_")),
                      "%s: after %d operations ending in %s: %s differ from the specification (got %s, allowed %s)"
                      % (what, len(steps), [line(o) for o in steps[-3:]], b["why"], seen and (seen["out"], seen["r"]), b.get("exp")),
                      dict(operations=[line(o) for o in steps], observed=seen, why=b["why"], types=TNAME))


MC = """SPECIFICATION Spec
CONSTANTS Pairs <- P
Held <- H
Ids = {1, 2}
Tokens = {%s}
Kinds = {%s}
VIEW View
CONSTRAINT Bounded
PROPERTY Laws
"""


def explore(chk, pairs, held, tokens, kds, emit):
    """Configuration through a module written here: pairs and held types can't be given in a cfg."""
    body = "---- MODULE ConvertRun ----\nEXTENDS ConvertMC\nP == {%s}\nH == {%s}\n====\n" % (
        ", ".join("<<%d, %d>>" % p for p in pairs), ", ".join(map(str, held)))
    r = chk.design("ConvertRun", MC % (", ".join(map(str, tokens)), ", ".join('"%s"' % k for k in kds)) + ("ACTION_CONSTRAINT Emit\n" if emit else ""),
                   "Convert, pairs %s held %s" % (pairs, held), data=dict(TYPES=TYPES, TARGETS=TARGETS), extra={"ConvertRun": body}, workers=4)
    edges, targets = set(), {}
    for e in tagged(r["out"], "EDGE"):
        o = e["o"]
        if o["op"] == "x":
            o["a"] = 1
        a, b, o = json.dumps(e["s"], sort_keys=True), json.dumps(e["t"], sort_keys=True), json.dumps(o, sort_keys=True)
        targets.setdefault((a, o), set()).add(b)
        edges.add((a, o, b))
    return sorted(e for e in edges if len(targets[e[0], e[1]]) == 1)


def start(n):
    return json.dumps(dict(reg=[], v=[dict(f="none", k=0, pc=False, t=0)] * n, ext=[1] * len(TYPES)), sort_keys=True)


def random_script(rng, n, length, focus):
    """All operations are enabled in every state (but for arrays that would be replaced by pointers to themselves)."""
    held = {}
    out = []
    some = rng.sample(PAIRS, rng.choice((2, 4, 8, len(PAIRS))))
    tg = sorted({a for p in some for a in p} | ({12} if 9 in {a for p in some for a in p} else set()) | ({13} if 7 in {a for p in some for a in p} else set())
                | ({14} if 8 in {a for p in some for a in p} else set()))
    while len(out) < length:
        op = rng.choice(focus)
        w = rng.randint(0, 29)
        if op in ("reg", "unreg", "has"):
            p = rng.choice(some)
            k, t = "", 0
            if op == "reg":
                k = rng.choice(kinds(p))
                t = 0 if k == "implicit" else rng.randint(1, 3)
            out.append(dict(op=op, a=p[0], b=p[1], k=k, t=t, w=w))
            continue
        if op == "x":
            out.append(dict(op=op, a=rng.choice([x for x in tg if x <= 11]), b=0, k="", t=rng.randint(1, 19), w=0))
            continue
        a, b = rng.randint(1, n), rng.choice(tg)
        if op == "hold":
            forms = ["val", "val", "ref", "cref"] if b <= 11 else ["val"]
            if b in (9, 12):
                forms.append("arr")
            k = rng.choice(forms + (["none"] if rng.random() < .2 else []))
            held[a] = (k, b)
            out.append(dict(op=op, a=a, b=b, k=k, t=rng.randint(1, 19), w=0))
            continue
        if op in ("to", "can", "conv", "try", "eq"):
            if op in ("conv", "try") and held.get(a, ("", 0))[0] == "arr" and b in (9, 12):
                continue
            if op == "to" and b == 10 or op in ("conv", "try", "eq") and b > 14:
                pass
            if op == "eq" and b > 11:
                continue
            if op in ("conv", "try"):
                # whether it succeeds is known to TLC only; arrays stay excluded as long as they may be there
                pass
            out.append(dict(op=op, a=a, b=b, k="", t=rng.choice((1, 11, 21, 31, 2, 12, 22, 8, 7)) if op == "eq" else 0, w=w))
    return out


def histories(chk, exe, n, focus, total, judge, what):
    while total > 0:
        conform(chk, exe, [random_script(chk.rng, n, 150, focus) for _ in range(min(total, 600))], n, judge, what)
        total -= 600


def from_model(chk, exe, groups, judge, limit):
    with concurrent.futures.ThreadPoolExecutor(2) as ex:
        graphs = list(ex.map(lambda g: explore(chk, *g, True), groups))
    scripts = []
    for edges in graphs:
        sc, left = edge_cover(edges, start(1), chk.rng, max_len=200, limit=limit)
        chk.cov["model_edges"] = chk.cov.get("model_edges", 0) + len(edges)
        chk.cov["model_edges_replayed"] = chk.cov.get("model_edges_replayed", 0) + len(edges) - left
        scripts += [[json.loads(o) for o in s] for s in sc]
    conform(chk, exe, scripts, 1, judge, "transitions of the model")


GROUPS = [([(1, 2), (2, 1)], [1, 2], [1, 7, 8], ["lambda", "ok lambda"]), ([(6, 5), (1, 5)], [5, 6, 1], [1, 8], ["method", "ok method"]),
          ([(3, 1), (1, 3)], [1, 3], [1, 7], ["function", "ok function"]), ([(3, 10), (10, 3)], [3, 10], [1, 7, 8], ["lambda", "ok function"]),
          ([(4, 2), (2, 4)], [2, 4], [1, 7, 8], ["functor", "std::function"]), ([(11, 3), (3, 11)], [3, 11], [2, 8], ["ok method" if 0 else "lambda", "ok lambda"]),
          ([(8, 7), (7, 8)], [7, 8, 13], [1, 7], ["lambda", "ok lambda"]), ([(9, 1), (1, 9)], [1, 9, 12], [1, 8], ["lambda", "ok lambda"])]


def c05(pid):
    chk = Check(pid)
    exe = chk.build([HARN + "/convert_main.cpp"])
    if not exe:
        return chk.compile_failed()
    judge = ["reg", "unreg", "has", "to", "conv", "try", "can", "hold", "x"]
    groups = GROUPS if THOROUGH else chk.rng.sample(GROUPS, 3)
    from_model(chk, exe, groups, judge, 10000 if not THOROUGH else 60000)
    histories(chk, exe, 2, ["reg", "reg", "reg", "unreg", "has", "hold", "hold", "to", "to", "conv", "try", "can", "x"], 500 if not THOROUGH else 12000, judge, "random histories")
    return chk.finish()


def c04(pid):
    chk = Check(pid)
    exe = chk.build([HARN + "/convert_main.cpp"])
    if not exe:
        return chk.compile_failed()
    judge = ["reg", "to", "conv", "try", "can", "hold", "x"]
    groups = GROUPS if THOROUGH else chk.rng.sample(GROUPS, 2)
    from_model(chk, exe, groups, judge, 10000 if not THOROUGH else 60000)
    histories(chk, exe, 2, ["reg", "reg", "unreg", "hold", "hold", "hold", "to", "to", "conv", "try", "try", "can", "can", "x"], 500 if not THOROUGH else 12000, judge, "random histories")
    import check_classes
    hs = check_classes.fixed_hiers()
    if not THOROUGH:
        hs = chk.rng.sample(hs, 3)
    hs += [check_classes.random_hier(chk.rng, chk.rng.choice((4, 5))) for _ in range(1 if not THOROUGH else 20)]
    if not check_classes.run_classes(chk, ops={14, 15, 16, 17}, metas=False, hiers=hs):
        return chk.compile_failed()
    return chk.finish()


def matrix(chk, exe, seed, n):
    def observe():
        rc, out, err = chk.run(exe, [str(seed), str(n)])
        rows = []
        for l in out.splitlines():
            try:
                rows.append(json.loads(l))
            except ValueError:
                pass
        return rc, rows, err
    rc, rows, err = observe()
    if rc:
        rc, rows, err = observe()
        if rc:
            chk.violation("equality_crash", "comparing variants ended with %s after %d rows: %s" % (rc, len(rows), err[:1000]), dict(seed=seed, n=n, err=err[:3000]))
            return
    r = chk.validate("EqualityTrace", "SPECIFICATION Spec\nINVARIANT Inv\n", dict(ROWS=rows), var="i")
    chk.cov["states"] += r["distinct"]
    chk.cov["transitions"] += r["generated"]
    chk.cov["traces_validated_against_impl"] += len(rows)
    chk.cov["pairs_compared"] = chk.cov.get("pairs_compared", 0) + len(rows) ** 2
    chk.sample(dict(content=rows[5]["label"], equal_to=[rows[j]["label"] for j, x in enumerate(rows[5]["eq"]) if x == "true"][:5]))
    for i in r["undef"]:
        chk.violation("undefined", "results of comparing %s are outside of the specification's domain" % rows[i - 1]["label"], rows[i - 1])
    for bad in tagged(r["out"], "BAD")[:8]:
        i = bad["i"] - 1
        for j in sorted(bad["b"])[:2]:
            j -= 1
            chk.violation("%s|%s" % (rows[i]["label"].replace(" ", "_"), rows[j]["label"].replace(" ", "_")),
                          "variant of %s against %s: == %s, != %s, against the value itself %s, hashes %s" % (
                              rows[i]["label"], rows[j]["label"], rows[i]["eq"][j], rows[i]["ne"][j], rows[i]["val"][j],
                              "equal" if rows[i]["h"] == rows[j]["h"] and (i != j or rows[i]["h"] == rows[i]["copyHash"]) else "different"),
                          dict(seed=seed, left=rows[i]["label"], right=rows[j]["label"]))


def c06(pid):
    chk = Check(pid)
    des = chk.design_async("EqualityMC", "SPECIFICATION Spec\nINVARIANT Inv\n", "Equality is an equivalence", workers=2)
    with concurrent.futures.ThreadPoolExecutor(2) as ex:
        b1 = ex.submit(chk.build, [HARN + "/equality_main.cpp"], "equality")
        b2 = ex.submit(chk.build, [HARN + "/convert_main.cpp"], "convert")
        eq, conv = b1.result(), b2.result()
    if not eq or not conv:
        return chk.compile_failed()
    des.result()
    for k in range(2 if not THOROUGH else 20):
        matrix(chk, eq, chk.rng.randint(1, 10 ** 6), 150 if not THOROUGH else 400)
    groups = GROUPS if THOROUGH else chk.rng.sample(GROUPS, 2)
    from_model(chk, conv, groups, ["eq"], 10000 if not THOROUGH else 60000)
    histories(chk, conv, 2, ["reg", "reg", "unreg", "hold", "hold", "hold", "conv", "eq", "eq", "eq", "eq", "x"], 500 if not THOROUGH else 12000, ["eq"], "random histories")
    return chk.finish()
