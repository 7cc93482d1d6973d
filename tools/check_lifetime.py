"""C19: the library during static initialization and destruction (spec/Lifetime.tla)."""
from vlib import *

CFG = """SPECIFICATION Spec
CONSTANTS NO = %d
Held = {%s}
P <- PP
Ops0 = {%s}
TypesFirst = %s
MaxUp = 2
PROPERTY Laws
VIEW View
"""
PAIRS = [(4, 1), (1, 4), (2, 4), (4, 5)]
NS, STATIC, NO, NB = 3, 4, 8, 3          # slots, static objects of the driver, objects, blocks


def explore(chk, no, held, pairs, ops, emit, first=True, **kw):
    body = "---- MODULE LifetimeRun ----\nEXTENDS LifetimeMC\nPP == {%s}\n====\n" % ", ".join("<<%d, %d>>" % p for p in pairs)
    r = chk.design("LifetimeRun", CFG % (no, ", ".join(map(str, held)), ", ".join('"%s"' % o for o in ops), "TRUE" if first else "FALSE")
                   + ("ACTION_CONSTRAINT Emit\n" if emit else ""),
                   "Lifetime, %d objects, types %s, %s%s" % (no, held, " ".join(ops), "" if first else ", types after namespaces (must fail)"),
                   extra={"LifetimeRun": body}, workers=4, **kw)
    es, targets = set(), {}
    for e in tagged(r["out"], "EDGE"):
        a, o, b = (json.dumps(x, sort_keys=True) for x in (e["s"], e["o"], e["t"]))
        targets.setdefault((a, o), set()).add(b)
        es.add((a, o, b))
    return sorted(es)


def program(ops):
    """a history of the model as a program: objects of the model are made in main"""
    out, who = [], ("m", 0)
    for o in ops:
        if o["op"] == "done":
            out.append(("m", 0, "new", o["s"] + STATIC, 0, 0))
        elif o["op"] == "exit":
            who = ("d", o["s"] + STATIC)
        else:
            out.append(who + (o["op"], o["s"], o["k"], o["t"]))
    return out


def random_program(rng):
    defs, up = set(), []
    types = rng.sample([1, 2, 3, 4, 5], rng.choice((2, 3, 5)))
    if rng.random() < .6:
        types = sorted(set(types) | {2, 3})
    some = rng.sample(PAIRS, rng.choice((1, 2, 4)))
    out = []
    weights = [rng.random() ** 2 for _ in range(22)]

    def step(who, final):
        ops = ["hold", "copy", "ctor", "swap", "drop", "is", "get", "to", "can", "reg", "unreg", "has", "id", "make", "name", "def", "cls", "call", "meta",
               "glob", "mark", "inh", "invoke"]
        w = weights + [.3]
        while True:
            op = rng.choices(ops, w)[0]
            if final and op in ("reg", "def"):
                continue
            # the driver leaves out what isn't enabled: the order of its translation units is up to the linker
            s, k, t = rng.randint(1, NS), rng.choice(types), rng.randint(1, 9)
            if op in ("reg", "unreg", "has"):
                s, k = rng.choice(some)
                t = rng.randint(1, 2)
            elif op in ("copy", "ctor", "swap"):
                k, t = rng.randint(1, NS), 0
            elif op == "def":
                k = rng.choice((1, 2, 3))
                t = rng.randint(0, 1)
                if k in defs or k == 3 and 2 not in defs:
                    if len(defs) == 3 or rng.random() < .5:
                        return
                    continue
                defs.add(k)
            elif op == "glob":
                k = rng.choice((1, 2, 3))
            elif op == "mark":
                k = rng.choice((2, 3))
            out.append(who + (op, s, k, t))
            return
    def start(who, n):
        for _ in range(n):
            step(who, False)
    dens = rng.choice((0, 1, 4))
    for w in [("c", 1), ("b", 1), ("b", 2), ("c", 2), ("c", 3), ("b", 3), ("c", 4)]:
        start(w, rng.randint(0, dens))
        if w[0] == "c":
            up.append(w[1])
    for i in range(STATIC + 1, STATIC + 1 + rng.randint(0, NO - STATIC)):
        start(("m", 0), rng.randint(0, 8))
        out.append(("m", 0, "new", i, 0, 0))
        start(("c", i), rng.randint(0, 2))
        up.append(i)
    start(("m", 0), rng.randint(0, 12))
    for i in reversed(up):
        for _ in range(rng.choice((0, 2, 8))):
            step(("d", i), True)
    return out


def conform(chk, exe, progs, what):
    def observe(some):
        def one(i):
            p = "%s/lt%d.txt" % (chk.tmp, i)
            open(p, "w").write("\n".join(" ".join(map(str, o)) for o in some[i]) + "\n")
            rc, out, err = chk.run(exe, env=dict(os.environ, LT_SCRIPT=p))
            os.remove(p)
            ev = []
            for line in out.splitlines():
                try:
                    ev.append(json.loads(line))
                except ValueError:
                    pass
            ended = bool(ev) and ev[-1]["o"]["op"] == "end"
            return dict(ns=NS, no=NO, nb=NB, ev=ev), (rc if rc or not ended else None), err
        with concurrent.futures.ThreadPoolExecutor(NCPU) as ex:
            return list(ex.map(one, range(len(some))))

    def judge(some):
        res = observe(some)
        r = chk.validate("LifetimeTrace", "SPECIFICATION Spec\n", dict(SCRIPTS=[x for x, rc, err in res]))
        bads = {}
        for b in tagged(r["out"], "BAD"):
            if "script" in b["why"]:
                raise ModelError("script not enabled: %s %s" % (what, res[b["s"] - 1][0]["ev"][:b["l"]]))
            bads.setdefault(b["s"] - 1, b)
        for i, (x, rc, err) in enumerate(res):
            if rc is not None and i not in bads:
                bads[i] = dict(why=["crash (status %s)" % rc], l=len(x["ev"]))
        for s in r["undef"]:
            bads.setdefault(s - 1, dict(why=["observations outside of the specification's domain"], l=0))
        return res, bads, r
    res, bads, r = judge(progs)
    chk.cov["states"] += r["distinct"]
    chk.cov["transitions"] += r["generated"]
    chk.cov["traces_validated_against_impl"] += len(progs)
    n = sum(len(x["ev"]) for x, _, _ in res)
    chk.cov["operations"] = chk.cov.get("operations", 0) + n
    chk.log("%s: %d programs, %d events, %d rejected" % (what, len(progs), n, len(bads)))
    chk.sample(dict(program=[" ".join(map(str, o)) for o in progs[0][:8]], seen=res[0][0]["ev"][:6]))
    if not bads:
        return
    again = sorted(bads)[:8]
    res2, bads2, _ = judge([progs[i] for i in again])
    for n, i in enumerate(again):
        if n not in bads2:
            continue
        b, (x, rc, err) = bads2[n], res2[n]
        last = x["ev"][b["l"] - 1] if b["l"] else None
        short = lambda e: "%(op)s %(s)d %(k)d %(t)d" % e["o"]
        tail = [short(e) for e in x["ev"][max(0, b["l"] - 4):b["l"]]]
        chk.violation("%s:%s" % (tail[-1] if tail else "", "+".join(b["why"])), "%s: after %d events ending in %s: %s differ from the specification%s"
                      % (what, b["l"], tail, b["why"], "" if "crash" in str(b["why"]) or not last else " (got %s %s with %s live values, allowed %s)" % (last["r"], last["v"], last["live"], b.get("exp"))),
                      dict(program=[" ".join(map(str, o)) for o in progs[i]], observed=last, why=b["why"], stderr=err[-1500:]))


OPS = [(1, [2, 3], [], ["def", "hold", "get", "inh", "meta", "cls", "call"]), (2, [2, 3], [], ["def", "inh", "id", "meta"]),
       (2, [1, 4], [(4, 1)], ["hold", "to", "reg", "has", "id"]), (1, [1, 4], [(4, 1), (1, 4)], ["hold", "to", "reg", "has", "drop", "is"]),
       (2, [2], [], ["def", "hold", "call", "glob"]), (2, [3, 2], [], ["def", "invoke", "cls", "id"])]


def c19(pid):
    chk = Check(pid)
    exe = chk.build([HARN + "/lifetime_main.cpp"], plain=[HARN + "/lifetime_%s.cpp" % x for x in "abc"])
    if not exe:
        return chk.compile_failed()
    explore(chk, 2, [2, 3], [], ["def", "inh", "glob"], False, first=False, expect_ok=False)
    progs = []
    groups = OPS if THOROUGH else OPS[:1] + chk.rng.sample(OPS[1:], 3)
    with concurrent.futures.ThreadPoolExecutor(2) as ex:
        graphs = list(ex.map(lambda g: explore(chk, *g, True), groups))
    for g, edges in zip(groups, graphs):
        init = json.dumps(dict(v=dict(used=[], ent=[[]] * g[0], now=0, up=[], conv=[], v=[dict(k=0, t=0)], seen=[], may=[], **{"def": []}, blk=[], main=False), o=[]), sort_keys=True)
        assert any(a == init for a, o, b in edges), edges[:1]
        sc, left = edge_cover(edges, init, chk.rng, max_len=60, limit=6000 if not THOROUGH else 60000)
        chk.cov["model_edges"] = chk.cov.get("model_edges", 0) + len(edges)
        chk.cov["model_edges_replayed"] = chk.cov.get("model_edges_replayed", 0) + len(edges) - left
        progs += [program([json.loads(o) for o in s]) for s in sc]
    conform(chk, exe, progs, "transitions of the model")
    for _ in range(1 if not THOROUGH else 20):
        conform(chk, exe, [random_program(chk.rng) for _ in range(800)], "random programs")
    chk.assumptions += ["objects of static storage duration are emulated in part by __cxa_atexit, which is what the compiler does for them",
                        "the global namespace is not asked for in destructors of objects constructed before its first use"]
    return chk.finish()
