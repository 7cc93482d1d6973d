"""C14 (spec/Property.tla): metaproperties. Slots and argument binding are those of check_invoke."""
from check_invoke import *

INT, STR, M_, N_, PTR = 1, 2, 6, 7, 9
FIELDS = [("num", INT), ("str", STR), ("mo", M_), ("co", N_), ("ro", INT), ("ptr", PTR), ("mut", INT), ("hid", INT)]
DFIELDS = [("dnum", INT), ("dstr", STR)]
STATICS = [("sint", INT), ("sstr", STR), ("smo", M_), ("sco", N_), ("scon", INT), ("sptr", PTR)]
RO = 5
# name of the variable's index, type, getter (form, const), setter (form, const)
ACC = [(1, INT, "v", True, "v", False), (2, STR, "c", True, "c", False), (2, STR, "l", False, "r", False), (4, N_, "c", True, "v", False),
       (3, M_, "c", True, "v", False), (3, M_, "c", True, "r", False), (7, INT, "v", True, "v", True), (8, INT, "c", True, "c", False),
       (8, INT, "v", False, "v", False), (6, PTR, "v", True, "c", False), (4, N_, "v", True, "c", False), (2, STR, "v", True, "v", False)]
SACC = [(1, INT, "v", "v"), (2, STR, "l", "c"), (3, M_, "c", "v"), (4, N_, "v", "c"), (2, STR, "c", "r"), (3, M_, "l", "r")]
RES = {"v": "%s", "l": "L<%s>", "c": "L<%s const>"}


class Props:
    def __init__(self, chk):
        self.rows, self.reg = [], []
        decl = {"A": [], "Base": [], "Derived": []}
        defs = []
        for x, c in (("A", 3), ("Base", 4), ("Derived", 5)):
            fields = FIELDS if c < 5 else DFIELDS
            d = decl[x]
            if c < 5:
                d.append("int num = 0; std::string str; M mo{0}; N co{0}; int const ro = %d; Ptr<int const> ptr = &ints[0]; mutable int mut = 0; int hid = 0;" % RO)
                d.append("void fields(%s const &o) { num = o.num; str = o.str; co = o.co; ptr = o.ptr; mut = o.mut; hid = o.hid; }" % x)
            else:
                d.append("int dnum = 0; std::string dstr;")
            for i, (n, t) in enumerate(fields, 1):
                if n in ("mut", "hid"):
                    continue
                self.add(c, c, False, False, t, i + (8 if c == 5 else 0), ("c", True), ("v", False), n == "ro", "_property(\"%%s\", &%s::%s)" % (x, n))
            accs = ACC if c < 5 else [(2, STR, "v", True, "c", False), (1, INT, "c", True, "r", False)]
            for i, (k, t, gf, gc, sf, sc) in enumerate(accs):
                n, T_ = fields[k - 1][0], NAME[t - 1]
                d.append("%s get%d()%s; void set%d(%s)%s;" % (RES[gf] % T_, i, " const" if gc else "", i, FORM[sf] % T_, " const" if sc else ""))
                defs.append("%s %s::get%d()%s { got(%s); return %s; } void %s::set%d(%s x)%s { assign<%s>(%s, x); }" % (
                    RES[gf] % T_, x, i, " const" if gc else "", str(gf == "v").lower(), n, x, i, FORM[sf] % T_, " const" if sc else "", FORM[sf] % T_, n))
                self.add(c, c, False, True, t, k + (8 if c == 5 else 0), (gf, gc), (sf, sc), False, "_property(\"%%s\", &%s::get%d, &%s::set%d)" % (x, i, x, i))
        glob = []
        for i, (n, t) in enumerate(STATICS, 1):
            T_ = NAME[t - 1]
            glob.append("%s%s %s%s;" % (T_, " const" if n == "scon" else "", n, {"scon": " = %d" % RO, "sptr": " = &ints[0]", "smo": "{0}", "sco": "{0}", "sint": " = 0"}.get(n, "")))
            self.add(0, (0, 3, 4, 5, 0, 4)[i - 1], True, False, t, i, ("c", True), ("v", False), n == "scon", "_property(\"%%s\", &%s)" % n)
        for i, (k, t, gf, sf) in enumerate(SACC):
            n, T_ = STATICS[k - 1][0], NAME[t - 1]
            glob.append("%s sget%d() { got(%s); return %s; } void sset%d(%s x) { assign<%s>(%s, x); }" % (RES[gf] % T_, i, str(gf == "v").lower(), n, i, FORM[sf] % T_, FORM[sf] % T_, n))
            self.add(0, (0, 5, 3, 0, 4, 0)[i], True, True, t, k, (gf, True), (sf, False), False, "_property(\"%%s\", &sget%d, &sset%d)" % (i, i))
        for x, d in decl.items():
            open("%s/invoke_methods_%s.h" % (chk.tmp, x), "w").write("\n".join(d) + "\n")
        h = ["constexpr int A_stores = 8, Base_stores = 8, Derived_stores = 10, static_stores = %d;" % len(STATICS)]
        for x in ("A", "Base", "Derived"):
            cases = "".join("case %d: return f(o.%s); " % (i, n) for i, (n, t) in enumerate(FIELDS + (DFIELDS if x == "Derived" else []), 1))
            h.append("template<typename F> auto %s_store(%s &o, int k, F &&f) { switch (k) { %s default: throw 0; } }" % (x, x, cases))
        h.append("".join("extern %s%s %s; " % (NAME[t - 1], " const" if n == "scon" else "", n) for n, t in STATICS))
        h.append("template<typename F> auto static_store(int k, F &&f) { switch (k) { %s default: throw 0; } }" % "".join("case %d: return f(%s); " % (i, n) for i, (n, t) in enumerate(STATICS, 1)))
        open(chk.tmp + "/property_fields.h", "w").write("\n".join(h) + "\n")
        src = ['#include "property.h"'] + defs + glob
        # definitions of consts need external linkage
        src = [s.replace("int const scon", "extern int const scon; int const scon") for s in src]
        src.append("void makeProperties() { properties.resize(%d);" % len(self.reg))
        for i, (own, r) in enumerate(self.reg):
            if own:
                n = CLASSES[own]
                src.append('  global_define()._namespace("inv")._class<%s>("%s").%s; properties[%d] = MetaClass::find(metaTypeId<%s>())->getProperty("p%d");' % (n, n, r % ("p%d" % i), i, n, i))
            else:
                src.append('  global_define()._namespace("inv").%s; properties[%d] = MetaNamespace::global()->getNamespace("inv")->getProperty("p%d");' % (r % ("p%d" % i), i, i))
        src.append("}")
        open(chk.tmp + "/props.cpp", "w").write("\n".join(src))
        self.tus = [chk.tmp + "/props.cpp", HARN + "/property_main.cpp"]
        for k in range(0, len(SLOTS), 20):
            p = "%s/slots%d.cpp" % (chk.tmp, k)
            open(p, "w").write('#include "invoke.h"\nvoid slots%d() {\n' % k + "".join("  slots.push_back(new %s);\n" % s["cpp"] for s in SLOTS[k:k + 20]) + "}\n")
            self.tus.append(p)
        p = chk.tmp + "/fill.cpp"
        open(p, "w").write('#include "invoke.h"\n' + "".join("void slots%d();\n" % k for k in range(0, len(SLOTS), 20)) + "void makeSlots() {"
                           + "".join("slots%d();" % k for k in range(0, len(SLOTS), 20)) + "".join(" kinds.push_back(new KindOf<%s>);" % n for n in NAME[:14]) + "}\n")
        self.tus.append(p)
        F = lambda c: dict(k=[t for n, t in (FIELDS + (DFIELDS if c == 5 else []))], v=[RO if n == "ro" else 0 for n, t in (FIELDS + (DFIELDS if c == 5 else []))])
        self.stores = [dict(o=0, k=[t for n, t in STATICS], v=[RO if n == "scon" else 0 for n, t in STATICS])]
        self.stores += [dict(F(5), o=1000 + i) for i in range(3)]
        self.stores += [dict(F(s["k"]), o=i) for i, s in enumerate(SLOTS, 1) if s["k"] in (3, 4, 5)]

    def add(self, cls, own, static, acc, t, store, get, set_, ro, reg):
        self.rows.append(dict(cls=cls, own=own, static=static, acc=acc, t=t, store=store, get=dict(f=get[0], const=get[1]), set=dict(f=set_[0], const=set_[1]), ro=ro))
        self.reg.append((own, reg))

    def spelled(self, o):
        if o["op"] in ("set", "poke"):
            return str(o)
        p = self.rows[o["p"] - 1]
        return "%s %s%s of %s%s" % (o["op"], self.reg[o["p"] - 1][1] % "p", " by name" if o["by"] == "name" else "", SLOTS[o["s"] - 1]["cpp"] if o["s"] else "no instance",
                                    " value %s" % SLOTS[o["v"] - 1]["cpp"] if o["op"] == "put" else "")


INSTANCES = [i for i, s in enumerate(SLOTS, 1) if s["k"] in (3, 4, 5)]
POINTERS = [i for i, s in enumerate(SLOTS, 1) if s["k"] in (10, 11, 12, 13)]
# values passed aren't objects whose members are properties
VALUES = [i for i, s in enumerate(SLOTS, 1) if s["k"] in (1, 2, 6, 7, 8, 9, 14, 0)]


def act(op, p=0, by="prop", s=0, v=0, thr=False, k=0, t=0):
    return dict(op=op, p=p, by=by, s=s, v=v, thr=bool(thr), k=k, t=t)


def possible(o, props):
    # an array converts to a pointer to itself: not one of the contents of pointers followed
    if o["op"] == "put" and props.rows[o["p"] - 1]["t"] == PTR and SLOTS[o["v"] - 1]["k"] == 14:
        return False
    if o["s"] and o["op"] in ("get", "put"):
        S = SLOTS[o["s"] - 1]
        if o["by"] == "name":
            return S["via"] == "var" and (o["op"] == "get" or not S["c"])
        # a temporary would be moved from
        return S["first"] and not (S["via"] == "plain" and S["r"] == "r" and not S["u"]["a"])
    return o["by"] != "name"


def lines14(ops):
    def one(o):
        return {"set": "set %(s)d %(t)d", "poke": "poke %(s)d %(k)d %(t)d", "get": "get %(p)d %(by)s %(s)d", "put": "put %(p)d %(by)s %(s)d %(v)d %(thr)d"}[o["op"]] % o
    return "".join(one(o) + "\n" for o in ops) + SEP + "\n"


def poke(rng, props, o):
    st = next(x for x in props.stores if x["o"] == o)
    ks = [k for k in range(1, len(st["k"]) + 1) if not st["v"][k - 1]]
    return act("poke", s=o, k=rng.choice(ks), t=rng.randrange(100))


def good_values(p):
    return [v for v in GOOD[(p["t"], p["set"]["f"])] if v in VALUES]


def good_instances(p):
    return [i for i in INSTANCES if SLOTS[i - 1]["k"] == p["cls"] or (p["cls"] == 4 and SLOTS[i - 1]["k"] == 5)] + ([i for i in POINTERS] if p["cls"] != 3 else [])


def all_gets_and_sets(props, rng, share):
    """every property with every instance, and every value"""
    scripts, ops = [], []
    for p, P in enumerate(props.rows, 1):
        for s in [0] + INSTANCES + POINTERS + rng.sample(VALUES, 6):
            for by in ("prop", "name"):
                for op in ("get", "put"):
                    o = act(op, p, by, s, rng.choice(good_values(P)) if op == "put" else 0, rng.random() < 0.1)
                    if possible(o, props) and rng.random() < share:
                        ops.append(o)
        for v in VALUES:
            g = good_instances(P)
            o = act("put", p, "prop", 0 if P["static"] else rng.choice([i for i in g if SLOTS[i - 1]["via"] == "var" and not SLOTS[i - 1]["c"] and SLOTS[i - 1]["r"] == "l"]), v, rng.random() < 0.1)
            if possible(o, props) and rng.random() < max(share, 0.7):
                ops.append(o)
                ops.append(act("get", p, "prop", o["s"]))
    rng.shuffle(ops)
    for k in range(0, len(ops), 60):
        scripts.append(decorate(ops[k:k + 60], props, rng))
    return scripts


def decorate(ops, props, rng):
    res, seen = [], set()
    for o in ops:
        for s in (o["v"], o["s"]):
            if s and (s in VALUES or s in POINTERS) and SLOTS[s - 1]["k"] and o["op"] in ("get", "put") and (s not in seen or rng.random() < 0.3):
                seen.add(s)
                res.append(act("set", s=s, t=rng.randrange(3) if s in POINTERS else rng.randrange(100)))
        if o["s"] in INSTANCES and rng.random() < 0.4:
            res.append(poke(rng, props, o["s"]))
        elif rng.random() < 0.15:
            res.append(poke(rng, props, rng.choice([0, 1000, 1001, 1002])))
        res.append(o)
    return res


def random14(props, rng, length):
    inst = rng.sample(INSTANCES, 3) + rng.sample(POINTERS, 2) + [0, 0]
    vals = rng.sample(VALUES, 4)
    ops = []
    while len(ops) < length:
        p = rng.randrange(1, len(props.rows) + 1)
        P = props.rows[p - 1]
        g = [i for i in inst if (i == 0 if P["static"] else i in good_instances(P))]
        s = rng.choice(g) if g and rng.random() < 0.9 else rng.choice(inst)
        if rng.random() < 0.5:
            o = act("get", p, rng.choice(("prop", "name")), s)
        else:
            v = rng.choice(good_values(P)) if rng.random() < 0.85 else rng.choice(vals)
            o = act("put", p, rng.choice(("prop", "name")), s, v, rng.random() < 0.05)
        if possible(o, props):
            ops.append(o)
    return decorate(ops, props, rng)


def observe14(chk, exe, scripts):
    cls = " ".join(str(s["k"]) for s in SLOTS)
    n = max(1, (len(scripts) + NCPU * 2 - 1) // (NCPU * 2))
    parts = [scripts[k:k + n] for k in range(0, len(scripts), n)]

    def one(p):
        rc, so, se = chk.run(exe, [cls], inp="".join(map(lines14, p)).encode(), timeout=300)
        rows = [json.loads(l) for l in so.splitlines()]
        return rows + [dict(crash=str(rc))] * (len(p) - len(rows)), se
    out, err = [], ""
    with concurrent.futures.ThreadPoolExecutor(NCPU) as ex:
        for rows, se in ex.map(one, parts):
            out += rows
            err += se[:2000]
    return out, err


def conform14(chk, props, exe, scripts, what):
    rows, err = observe14(chk, exe, scripts)
    bad, crash = [], [i for i, r in enumerate(rows) if "crash" in r]
    if crash:
        again, err = observe14(chk, exe, [scripts[i] for i in crash])
        for i, r in zip(crash, again):
            if "crash" in r:
                bad.append((i, len(scripts[i]), ["crash"], err[:1500]))
            rows[i] = r
    keep = [i for i, r in enumerate(rows) if "ev" in r]
    data = [dict(ev=[dict(e, o=o) for o, e in zip(scripts[i], rows[i]["ev"])]) for i in keep]
    r = chk.validate("PropertyTrace", "SPECIFICATION Spec\n", dict(tables14(props), SCRIPTS=data), heap="12g")
    chk.cov["states"] += r["distinct"]
    chk.cov["transitions"] += r["generated"]
    chk.cov["traces_validated_against_impl"] += len(data)
    ev = [e for d in data for e in d["ev"] if e["o"]["op"] in ("get", "put")]
    for e in ev:
        k = "%s_%s" % (e["o"]["op"], e["out"])
        chk.cov[k] = chk.cov.get(k, 0) + 1
    for e in ev[:600:200]:
        chk.sample(e)
    for k in r["undef"]:
        bad.append((keep[k - 1], 1, ["outside of the specification's domain"], ""))
    for b in tagged(r["out"], "BAD"):
        bad.append((keep[b["s"] - 1], b["l"], sorted(b["why"]), b["exp"]))
    for i, l, why, exp in bad[:10]:
        e = rows[i]["ev"][l - 1] if "ev" in rows[i] else None
        chk.violation("property:%s:%d" % ("_".join(why).replace(" ", "-"), l), "%s: %s: %s gave %s" % (what, ", ".join(why), props.spelled(scripts[i][l - 1]), e),
                      dict(script=[props.spelled(o) for o in scripts[i][max(0, l - 8):l]], lines=lines14(scripts[i][:l]), observed=e, expected=exp))
    chk.log("%s: %d scripts, %d accesses, %d bad" % (what, len(scripts), len(ev), len(bad)))


def tables14(props):
    return dict(SLOTS=[{k: s[k] for k in ("via", "k", "r", "c", "u", "h")} for s in SLOTS], FUNS=[], TY=[t[1] for t in TYPES], PROPS=props.rows, STORES=props.stores)


def universe14(props, rng, size):
    """properties of one variable or two, few instances and values; a part of the accesses doesn't fit"""
    rows = props.rows
    p0 = rng.randrange(len(rows))
    same = [i for i, r in enumerate(rows, 1) if (r["cls"], r["store"]) == (rows[p0]["cls"], rows[p0]["store"])]
    ps = same + [rng.randrange(1, len(rows) + 1) for _ in range(2)]
    g = good_instances(rows[p0])
    inst = [0] + rng.sample(g, min(3, len(g))) + rng.sample(POINTERS, 1)
    vals = rng.sample(good_values(rows[p0]), 2) + rng.sample(VALUES, 1)
    U = [act("get", p, by, s) for p in ps for s in inst for by in ("prop", "name")] + \
        [act("put", p, by, s, v, thr) for p in ps for s in inst for v in vals for by in ("prop", "name") for thr in (False, True)]
    U = [o for o in U if possible(o, props)]
    good = lambda o: (o["s"] == 0) == rows[o["p"] - 1]["static"] and (not o["s"] or o["s"] in good_instances(rows[o["p"] - 1])) and (not o["v"] or o["v"] in good_values(rows[o["p"] - 1]))
    a, b = [o for o in U if good(o)], [o for o in U if not good(o)]
    a, b = rng.sample(a, min(len(a), size)), rng.sample(b, min(len(b), size // 4))
    return a + b


def from_model14(chk, props, exe, rng, number, size, depth):
    us = [universe14(props, rng, size) for _ in range(number)]

    def explore(k):
        r = chk.design("PropertyMC", "SPECIFICATION Spec\nVIEW View\nPROPERTIES ReadsP OneVariableP WrittenIsReadP ConstantsP ValuesP AccessorsP\nACTION_CONSTRAINT Emit\nCONSTANT MaxDepth = %d\n" % depth,
                       "Property universe %d" % k, data=dict(tables14(props), UNIVERSE=us[k]), workers=4)
        return [json.loads(x) for x in sorted({json.dumps(e, sort_keys=True) for e in tagged(r["out"], "ACCESS")})]
    with concurrent.futures.ThreadPoolExecutor(2) as ex:
        todo = [e for es in ex.map(explore, range(number)) for e in es]
    rng.shuffle(todo)
    chk.cov["model_transitions"] = len(todo)
    todo = todo[:5000 if not THOROUGH else 100000]
    chk.cov["model_transitions_replayed"] = len(todo)
    scripts = []
    for k in range(0, len(todo), 40):
        ops, away = [], {}
        for e in todo[k:k + 40]:
            # everything is put into the state the model had
            for s, t in e["t"]:
                if SLOTS[s - 1]["k"] and s not in INSTANCES:
                    ops.append(act("set", s=s, t=t))
            want = {(o, i): t for o, i, t in e["st"]}
            for o, i in sorted(set(want) | set(away)):
                ops.append(act("poke", s=o, k=i, t=want.get((o, i), 0)))
            away = want
            ops.append(e["o"])
            if e["o"]["op"] == "put":
                o = e["o"]["s"]
                k2 = props.rows[e["o"]["p"] - 1]["store"]
                for q in [o] if o in INSTANCES or o == 0 else [1000, 1002]:
                    if not props.rows[e["o"]["p"] - 1]["ro"] and any(x["o"] == q and k2 <= len(x["k"]) and not x["v"][k2 - 1] for x in props.stores):
                        away[(q, k2)] = 0
        scripts.append(ops)
    conform14(chk, props, exe, scripts, "transitions of the model")


def c14(pid):
    chk = Check(pid)
    props = Props(chk)
    exe = chk.build(props.tus)
    if not exe:
        return chk.compile_failed()
    rng = random.Random(SEED * 15485863)
    conform14(chk, props, exe, all_gets_and_sets(props, rng, 0.5 if not THOROUGH else 1.0), "every property with every instance and value")
    conform14(chk, props, exe, [random14(props, rng, 40) for _ in range(150 if not THOROUGH else 3000)], "random histories")
    from_model14(chk, props, exe, rng, 8 if not THOROUGH else 40, 24 if not THOROUGH else 40, 3 if not THOROUGH else 4)
    return chk.finish()
