"""C13 (spec/Invoke.tla): calls of metamethods with every kind of argument."""
from vlib import *

T = lambda b, a=0, c=(False,), n=0: dict(b=b, a=a, c=list(c), r="n", n=n)
F_, C_ = False, True
TYPES = [("int", T(1)), ("std::string", T(2)), ("A", T(3)), ("Base", T(4)), ("Derived", T(5)), ("M", T(6)), ("N", T(7)),
         ("Ptr<int>", T(1, 1, (F_, F_))), ("Ptr<int const>", T(1, 1, (C_, F_))), ("Ptr<Base>", T(4, 1, (F_, F_))),
         ("Ptr<Base const>", T(4, 1, (C_, F_))), ("Ptr<Derived>", T(5, 1, (F_, F_))), ("Ptr<Derived const>", T(5, 1, (C_, F_))),
         ("Arr<int, 2>", T(1, 0, (F_,), 2)), ("variant", T(9))]
VARIANT = 15
NAME = [t[0] for t in TYPES]
EXPR = {("l", False): "Lv", ("l", True): "CLv", ("r", False): "Rv", ("r", True): "CRv"}
FORM = {"v": "%s", "l": "L<%s>", "c": "L<%s const>", "r": "R<%s>"}
CLASSES = {3: "A", 4: "Base", 5: "Derived"}


def slots():
    res = []
    for t in range(1, 15):
        for (r, c), e in EXPR.items():
            u = dict(TYPES[t - 1][1])
            u["c"] = u["c"][:-1] + [c]
            first = t not in (6, 7, 14) and e != "CRv"
            res.append(dict(via="plain", k=t, r=r, c=c, u=u, h="val", first=first, cpp="Plain<%s, %s, %s>" % (NAME[t - 1], e, str(first).lower())))
        for (r, c), e in EXPR.items():
            for h, hc in (("val", "v"), ("ref", "r"), ("cref", "c")):
                u = dict(TYPES[t - 1][1])
                u["c"] = u["c"][:-1] + [h == "cref"]
                res.append(dict(via="var", k=t, r=r, c=c, u=u, h=h, first=True, cpp="Var<%s, %s, '%s'>" % (NAME[t - 1], e, hc)))
    for (r, c), e in EXPR.items():
        res.append(dict(via="var", k=0, r=r, c=c, u=T(0), h="empty", first=True, cpp="Var<int, %s, 'e'>" % e))
    return res


SLOTS = slots()
SEP = "---"


class Catalog:
    """functions: dict(cls, const, own, params [(type, form)], res (what, j))"""
    def __init__(self, rng):
        self.rng, self.f = rng, []
        for t in list(range(1, 14)) + [VARIANT]:
            for f in "vlcr":
                self.add(0, False, [(1, "c"), (t, f)])
                self.add(0, False, [(t, f)])
        for c in CLASSES:
            for const in (False, True):
                self.add(c, const, [])
                self.add(c, const, [], ("self", 0))
        for c in CLASSES:
            for f in "vlcr":
                self.add(0, False, [(c, f)], own=c)
                self.add(0, False, [(VARIANT, f)], own=c)
        self.basic = len(self.f)
        self.add(0, False, [])
        for n in range(0, 11):
            for k in range(6):
                self.add(0 if k < 4 else rng.choice(list(CLASSES)), rng.random() < 0.5, [self.param() for _ in range(n if k < 4 else min(n, 9))])

    def param(self):
        return (self.rng.choice(list(range(1, 14)) + [VARIANT, 3, 4, 6]), self.rng.choice("vlcr"))

    def add(self, cls, const, params, res=None, own=0):
        if res is None:
            opts = [("void", 0), ("new", self.rng.choice((1, 2, 3, 5)))]
            for j, (t, f) in enumerate(params, 1):
                if t == VARIANT:
                    continue
                if t != 6 or f == "v":
                    opts.append(("val", j))
                if f == "l":
                    opts += [("ref", j)] * 2
                if f != "v":
                    opts.append(("cref", j))
            if cls:
                opts += [("self", 0)]
            res = self.rng.choice(opts)
        self.f.append(dict(cls=cls, const=bool(cls) and const, own=cls or own, params=params, res=res))

    def rows(self):
        return [dict(cls=f["cls"], const=f["const"], own=f["own"], params=[dict(t=t, f=x) for t, x in f["params"]], res=dict(k=f["res"][0], j=f["res"][1])) for f in self.f]

    def generate(self, chk):
        decl = {c: [] for c in CLASSES}
        bodies, reg = [], {0: []}
        for c in CLASSES:
            reg[c] = []
        for i, f in enumerate(self.f, 1):
            ps = [FORM[x] % NAME[t - 1] for t, x in f["params"]]
            k, j = f["res"]
            pt = lambda: NAME[f["params"][j - 1][0] - 1]
            res, ret = {"void": lambda: ("void", ""), "new": lambda: (NAME[j - 1], "return K<%s>::make(%d);" % (NAME[j - 1], i % 97 + 1)),
                        "val": lambda: (pt(), "return std::move(p%d);" % j if f["params"][j - 1][0] == 6 else "return p%d;" % j),
                        "ref": lambda: ("L<%s>" % pt(), "return back(p%d);" % j),
                        "cref": lambda: ("L<%s const>" % pt(), "return back<%s const>(p%d);" % (pt(), j)),
                        "self": lambda: ("L<%s%s>" % (CLASSES[f["cls"]], " const" if f["const"] else ""), "return back(*this);")}[k]()
            args = ", ".join("%s p%d" % (p, n) for n, p in enumerate(ps, 1))
            body = "{ ++call.times; " + ("seeThis(this); " if f["cls"] else "") + "".join("see<%s>(p%d); " % (p, n) for n, p in enumerate(ps, 1)) + "done(); " + ret + " }"
            cst = " const" if f["const"] else ""
            if f["cls"]:
                decl[f["cls"]].append("%s f%d(%s)%s;" % (res, i, args, cst))
                bodies.append((f["cls"], i, "%s %s::f%d(%s)%s %s" % (res, CLASSES[f["cls"]], i, args, cst, body)))
            else:
                bodies.append((0, i, "%s f%d(%s) %s" % (res, i, args, body)))
        for c, n in CLASSES.items():
            open("%s/invoke_methods_%s.h" % (chk.tmp, n), "w").write("void fields(%s const &) {}\n" % n + "\n".join(decl[c]) + "\n")
        tus, names = [], []
        order = sorted(bodies)
        for k in range(0, len(order), 14):
            name = "add%d" % k
            src = ['#include "invoke.h"'] + [b for c, i, b in order[k:k + 14]] + ["void %s() {" % name]
            for c, i, b in order[k:k + 14]:
                if c:
                    src.append('  global_define()._namespace("inv")._class<%s>("%s")._method("f%d", &%s::f%d);' % (CLASSES[c], CLASSES[c], i, CLASSES[c], i))
                    src.append('  functions[%d] = MetaClass::find(metaTypeId<%s>())->getMethod("f%d");' % (i - 1, CLASSES[c], i))
                else:
                    own = self.f[i - 1]["own"]
                    if own:
                        n = CLASSES[own]
                        src.append('  global_define()._namespace("inv")._class<%s>("%s")._method("f%d", &f%d);' % (n, n, i, i))
                        src.append('  functions[%d] = MetaClass::find(metaTypeId<%s>())->getMethod("f%d");' % (i - 1, n, i))
                    else:
                        src.append('  global_define()._namespace("inv")._method("f%d", &f%d);' % (i, i))
                        src.append('  functions[%d] = MetaNamespace::global()->getNamespace("inv")->getMethod("f%d");' % (i - 1, i))
            p = "%s/%s.cpp" % (chk.tmp, name)
            open(p, "w").write("\n".join(src + ["}"]))
            tus.append(p)
            names.append(name)
        for k in range(0, len(SLOTS), 20):
            name = "slots%d" % k
            p = "%s/%s.cpp" % (chk.tmp, name)
            open(p, "w").write('#include "invoke.h"\nvoid %s() {\n' % name + "".join("  slots.push_back(new %s);\n" % s["cpp"] for s in SLOTS[k:k + 20]) + "}\n")
            tus.append(p)
        p = chk.tmp + "/invoke_fill.cpp"
        open(p, "w").write('#include "invoke.h"\n' + "".join("void %s();\n" % n for n in names) + "".join("void slots%d();\n" % k for k in range(0, len(SLOTS), 20))
                           + "void makeFunctions() { functions.resize(%d);" % len(self.f) + "".join("%s();" % n for n in names) + "}\n"
                           + "void makeSlots() {" + "".join("slots%d();" % k for k in range(0, len(SLOTS), 20))
                           + "".join(" kinds.push_back(new KindOf<%s>);" % n for n in NAME[:14]) + "}\n")
        return tus + [p, HARN + "/invoke_main.cpp"]

    # ------------------------------------------------------------ calls
    def fits(self, f, a, by):
        """calls that can be written at all"""
        F = self.f[f - 1]
        args = a[1:] if F["cls"] else a
        if a and by == "first" and not SLOTS[a[0] - 1]["first"]:
            return False
        if by == "name" and (not a or SLOTS[a[0] - 1]["via"] != "var"):
            return False
        if not a and F["cls"] and by == "name":
            return False
        if len(a) > 10 or (F["cls"] and len(a) > 10):
            return False
        for (t, x), s in zip(F["params"], args):
            if t == VARIANT and SLOTS[s - 1]["via"] != "var":
                return False
        used = [s for s in a if SLOTS[s - 1]["r"] == "r"]
        return len(set(used)) == len(used)


def good_slots(t, f):
    """slots likely to be accepted"""
    res = []
    for i, s in enumerate(SLOTS, 1):
        if t == VARIANT:
            if s["via"] == "var":
                res.append(i)
        elif s["k"] and (s["k"] == t or (s["k"], t) in ((5, 4), (12, 10), (12, 11), (13, 11), (8, 9), (10, 11), (12, 13), (14, 8), (14, 9), (1, 2), (2, 3), (3, 7), (7, 1))):
            if (f == "l" and (s["r"] != "l" or s["c"] or s["h"] == "cref")) or (f == "r" and (s["r"] != "r" or s["c"])) or (t == 6 and f == "v" and (s["r"] != "r" or s["c"])):
                continue
            res.append(i)
    return res


GOOD = {(t, f): good_slots(t, f) for t in range(1, 16) for f in "vlcr"}
VARS = [i for i, s in enumerate(SLOTS, 1) if s["via"] == "var"]
FIRSTS = [i for i, s in enumerate(SLOTS, 1) if s["first"]]


def call(f, by, thr, a):
    return dict(op="call", f=f, by=by, thr=bool(thr), a=a, s=0, t=0)


def put(s, t):
    return dict(op="set", f=0, by="", thr=False, a=[], s=s, t=t)


def with_sets(rng, cat, calls):
    """sets contents of the arguments now and then"""
    res, seen = [], set()
    for c in calls:
        for s in c["a"]:
            if SLOTS[s - 1]["k"] and (s not in seen or rng.random() < 0.3):
                seen.add(s)
                res.append(put(s, rng.randrange(0, 100) if rng.random() < 0.9 else 0))
        res.append(c)
    return res


def exhaustive(cat, rng, share):
    """every kind of parameter with every slot, every instance"""
    scripts = []
    ints = GOOD[(1, "c")]
    for s in range(1, len(SLOTS) + 1):
        calls = []
        for f in range(1, cat.basic + 1):
            F = cat.f[f - 1]
            if F["cls"]:
                a = [s]
            elif len(F["params"]) == 2:
                a = [rng.choice(ints), s]
            else:
                if rng.random() > share:
                    continue
                a = [s]
            bys = ["first", "name"] if F["own"] else ["first"]
            for by in bys:
                if a[0] in ints and not SLOTS[a[0] - 1]["first"]:
                    a[0] = 1
                if cat.fits(f, a, by):
                    calls.append(call(f, by, rng.random() < 0.1, list(a)))
        rng.shuffle(calls)
        calls = with_sets(rng, cat, calls)
        scripts += [calls[k:k + 150] for k in range(0, len(calls), 150)] if True else []
    # contents set in a previous chunk of a script are gone
    res = []
    for ops in scripts:
        have = {o["s"] for o in ops if o["op"] == "set"}
        need = sorted({s for o in ops for s in o["a"]} - have)
        res.append([put(s, rng.randrange(100)) for s in need if SLOTS[s - 1]["k"]] + ops)
    return res


def random_script(cat, rng, length):
    calls = []
    while len(calls) < length:
        f = rng.randrange(cat.basic + 1, len(cat.f) + 1) if rng.random() < 0.8 else rng.randrange(1, cat.basic + 1)
        F = cat.f[f - 1]
        bad = rng.choice((0, 0, 0, 0.1, 0.4))
        a = [rng.randrange(1, len(SLOTS) + 1) if rng.random() < bad else rng.choice(GOOD[p]) for p in F["params"]]
        if F["cls"]:
            a.insert(0, rng.randrange(1, len(SLOTS) + 1) if rng.random() < bad else rng.choice(GOOD[(F["cls"], "c")]))
        x = rng.random()
        if x < 0.04 and a:
            a.pop(rng.randrange(len(a)))
        elif x < 0.08:
            a.insert(rng.randrange(len(a) + 1), rng.randrange(1, len(SLOTS) + 1))
        if len(a) > 1 and rng.random() < 0.15:
            a[rng.randrange(len(a))] = rng.choice(a)
        by = "name" if F["own"] and rng.random() < 0.4 else "first"
        if len(a) <= 10 and cat.fits(f, a, by):
            calls.append(call(f, by, rng.random() < 0.1, a))
    return with_sets(rng, cat, calls)


def lines(ops):
    return "".join("set %d %d\n" % (o["s"], o["t"]) if o["op"] == "set" else "call %d %s %d %s\n" % (o["f"], o["by"], o["thr"], " ".join(map(str, o["a"]))) for o in ops) + SEP + "\n"


def observe(chk, exe, scripts):
    out, n = [], max(1, (len(scripts) + NCPU * 2 - 1) // (NCPU * 2))
    parts = [scripts[k:k + n] for k in range(0, len(scripts), n)]

    def one(p):
        rc, so, se = chk.run(exe, inp="".join(map(lines, p)).encode(), timeout=300)
        rows = [json.loads(l) for l in so.splitlines()]
        if rc or len(rows) != len(p):
            rows += [dict(crash=str(rc))] * (len(p) - len(rows))
        return rows, se
    err = ""
    with concurrent.futures.ThreadPoolExecutor(NCPU) as ex:
        for rows, se in ex.map(one, parts):
            out += rows
            err += se[:2000]
    return out, err


def spelled(cat, o):
    if o["op"] == "set":
        return "set slot %d" % o["s"]
    F = cat.f[o["f"] - 1]
    return "%s%s(%s)%s called%s with %s" % (CLASSES.get(F["cls"], "") + ("::" if F["cls"] else ""), "f%d" % o["f"], ", ".join(FORM[f] % NAME[t - 1] for t, f in F["params"]),
                                           " const" if F["const"] else "", " by name" if o["by"] == "name" else "", ", ".join(SLOTS[s - 1]["cpp"] for s in o["a"]))


def conform(chk, cat, exe, scripts, what):
    rows, err = observe(chk, exe, scripts)
    bad = []
    crash = [i for i, r in enumerate(rows) if "crash" in r]
    if crash:
        again, err = observe(chk, exe, [scripts[i] for i in crash])
        for i, r in zip(crash, again):
            if "crash" in r:
                bad.append((i, len(scripts[i]), ["crash"], err[:1500]))
            rows[i] = r
    keep = [i for i, r in enumerate(rows) if "ev" in r]
    data = [dict(ev=[dict(e, o=o) for o, e in zip(scripts[i], rows[i]["ev"])]) for i in keep]
    r = chk.validate("InvokeTrace", "SPECIFICATION Spec\n", dict(tables(cat), SCRIPTS=data), heap="12g")
    chk.cov["states"] += r["distinct"]
    chk.cov["transitions"] += r["generated"]
    chk.cov["traces_validated_against_impl"] += len(data)
    calls = [e for d in data for e in d["ev"] if e["o"]["op"] == "call"]
    chk.cov["calls"] = chk.cov.get("calls", 0) + len(calls)
    for k in ("ok", "refused", "thrown", "stopped"):
        chk.cov["calls_" + k] = chk.cov.get("calls_" + k, 0) + sum(e["out"] == k for e in calls)
    for x in calls[:400:200]:
        chk.sample(x)
    for k in r["undef"]:
        bad.append((keep[k - 1], 1, ["outside of the specification's domain"], ""))
    for b in tagged(r["out"], "BAD"):
        bad.append((keep[b["s"] - 1], b["l"], sorted(b["why"]), b["calls"]))
    for i, l, why, exp in bad[:10]:
        ops = scripts[i][:l]
        e = rows[i]["ev"][l - 1] if "ev" in rows[i] else None
        chk.violation("invoke:%s:%d" % ("_".join(why).replace(" ", "-"), l), "%s: %s: %s gave %s" % (what, ", ".join(why), spelled(cat, ops[-1]), e),
                      dict(script=[spelled(cat, o) for o in ops[-6:]], lines=lines(ops), observed=e, expected=exp))
    chk.log("%s: %d scripts, %d calls, %d bad" % (what, len(scripts), len(calls), len(bad)))


def tables(cat):
    return dict(SLOTS=[{k: s[k] for k in ("via", "k", "r", "c", "u", "h")} for s in SLOTS], FUNS=cat.rows(), TY=[t[1] for t in TYPES])


def universe(cat, rng, n):
    """calls explored by the model: few slots, so that the same objects are passed again and again"""
    pool = rng.sample(VARS, 4) + rng.sample(range(1, len(SLOTS) + 1), 2)
    res, tries = [], 0
    while len(res) < n and tries < 100000:
        tries += 1
        if rng.random() < 0.02:
            pool = rng.sample(pool, 4) + rng.sample(range(1, len(SLOTS) + 1), 2)
        f = rng.randrange(1, len(cat.f) + 1)
        F = cat.f[f - 1]
        if len(F["params"]) > 3:
            continue
        a = []
        for p in ([(F["cls"], "c")] if F["cls"] else []) + list(F["params"]):
            g = [x for x in pool if x in GOOD[p]]
            a.append(rng.choice(g) if g and rng.random() < 0.9 else rng.choice(pool))
        good = sum(x in GOOD[p] for x, p in zip(a, ([(F["cls"], "c")] if F["cls"] else []) + list(F["params"])))
        if good < len(a) and rng.random() < 0.8:
            continue
        by = "name" if F["own"] and rng.random() < 0.5 else "first"
        if cat.fits(f, a, by):
            res.append(call(f, by, rng.random() < 0.15, a))
    return res


def from_model(chk, cat, exe, rng, number, size, depth, conform=None):
    def explore(k):
        u = universe(cat, random.Random(SEED * 31 + k * 7 + rng.randrange(1000)), size)
        r = chk.design("InvokeMC", "SPECIFICATION Spec\nVIEW View\nPROPERTIES OneOutcomeP ProtectedP CategoriesP PositionsP InstancesP\nACTION_CONSTRAINT Emit\nCONSTANT MaxDepth = %d\n" % depth,
                       "Invoke universe %d" % k, data=dict(tables(cat), UNIVERSE=u), workers=4)
        seen = {json.dumps(e, sort_keys=True) for e in tagged(r["out"], "CALL")}
        return [json.loads(x) for x in sorted(seen)]
    with concurrent.futures.ThreadPoolExecutor(2) as ex:
        todo = [e for es in ex.map(explore, range(number)) for e in es]
    rng.shuffle(todo)
    chk.cov["model_transitions"] = chk.cov.get("model_transitions", 0) + len(todo)
    todo = todo[:6000 if not THOROUGH else 200000]
    chk.cov["model_transitions_replayed"] = chk.cov.get("model_transitions_replayed", 0) + len(todo)
    scripts = []
    for k in range(0, len(todo), 60):
        ops, cur = [], {}
        for e in todo[k:k + 60]:
            for s in e["o"]["a"]:
                # objects are put into the state the model had
                t = e["t"][str(s)] if isinstance(e["t"], dict) else e["t"][s - 1]
                if SLOTS[s - 1]["k"]:
                    ops.append(put(s, t))
            ops.append(e["o"])
        scripts.append(ops)
    (conform or globals()["conform"])(chk, cat, exe, scripts, "transitions of the model")


def c13(pid):
    chk = Check(pid)
    for round in range(1 if not THOROUGH else 8):
        rng = random.Random(SEED * 104729 + round)
        cat = Catalog(rng)
        tus = cat.generate(chk)
        exe = chk.build(tus, name="driver%d" % round)
        if not exe:
            return chk.compile_failed()
        conform(chk, cat, exe, exhaustive(cat, rng, 0.3 if not THOROUGH else 1.0), "every parameter with every argument")
        conform(chk, cat, exe, [random_script(cat, rng, 40) for _ in range(250 if not THOROUGH else 2500)], "random calls")
        from_model(chk, cat, exe, rng, 4 if not THOROUGH else 8, 60 if not THOROUGH else 100, 2 if not THOROUGH else 3)
        if chk.found:
            break
    return chk.finish()
