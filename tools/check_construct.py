"""C15 (spec/Construct.tla): metaconstructors. Slots and argument binding are those of check_invoke."""
import itertools
import check_invoke
from check_invoke import *

NAMES = ["", "make", "build it"]


class Constructors(Catalog):
    """one class for every kind of single parameter, with further constructors of other arities"""
    def __init__(self, rng):
        self.rng, self.f, self.groups = rng, [], []
        kinds = [(t, f) for t in list(range(1, 14)) + [VARIANT] for f in "vlcr"]
        self.one = {}
        for g, k in enumerate(kinds):
            expl = rng.random() < 0.4
            self.new(g, [k], expl)
            self.new(g, [(1, "c"), k], False)
        self.basic = len(self.f)
        for j, forms in ((3, "cr"), (4, "dcr"), (5, "dcr"), (6, "r"), (7, "cr")):
            for x in forms:
                self.f.append(dict(cls=0, const=False, own=0, params=[] if x == "d" else [(j, x)], res=({"d": "default", "c": "copy", "r": "move"}[x], j), conv=False, expl=False))
        for g in range(len(kinds)):
            for n in sorted(rng.sample(range(3, 11), 3)):
                self.new(g, [self.param() for _ in range(n)], False)
        self.ngroups = len(kinds)
        # converters which are there before the class is defined: back to the type of the parameter, or of the same types (that one stays)
        self.prior = [rng.choice(("none", "back", "back", "taken")) if t <= 7 and t != 6 and f in "vc" else "none" for t, f in kinds]
        for F in self.f:
            g = F["res"][1] - 100 if F["res"][0] == "object" else 0
            F["taken"] = F["res"][0] == "object" and len(F["params"]) == 1 and self.prior[g] == "taken"

    def new(self, g, params, expl):
        conv = len(params) == 1 and not expl and params[0] != (6, "v") and params[0][1] in "vc"
        self.f.append(dict(cls=0, const=False, own=0, params=params, res=("object", 100 + g), conv=conv, expl=expl))

    def rows(self):
        return [dict(cls=0, const=False, own=0, params=[dict(t=t, f=x) for t, x in f["params"]], res=dict(k=f["res"][0], j=f["res"][1]), conv=f["conv"], taken=f["taken"]) for f in self.f]

    def generate(self, chk):
        for c, n in CLASSES.items():
            open("%s/invoke_methods_%s.h" % (chk.tmp, n), "w").write("void fields(%s const &) {}\n" % n)
        tus, names = [], []
        self.heads, self.decls = [], []

        def tu(name, src):
            p = "%s/%s.cpp" % (chk.tmp, name)
            open(p, "w").write("\n".join(src))
            tus.append(p)
        for k in range(0, self.ngroups, 5):
            src, body = ['#include "construct.h"'], ["void ctors%d() {" % k]
            for g in range(k, min(k + 5, self.ngroups)):
                X, mine = "X%d" % g, [(i, f) for i, f in enumerate(self.f, 1) if f["res"] == ("object", 100 + g)]
                src.append("struct %s { tracked::Core core; %s() { core.birth(0); } ~%s() { core.death(); } COPYABLE(%s) MOVABLE(%s) explicit %s(Early) { core.birth(98); }" % (X, X, X, X, X, X))
                for i, f in mine:
                    ps = [FORM[x] % NAME[t - 1] for t, x in f["params"]]
                    src.append("    %s%s(%s) { ++call.times; %sdone(); core.birth(%d); }" % ("explicit " if f["expl"] else "", X, ", ".join("%s p%d" % p for p in zip(ps, range(1, 11))),
                               "".join("see<%s>(p%d); " % p for p in zip(ps, range(1, 11))), i % 97 + 1))
                src.append("};\ntemplate<> struct K<%s> { static int get(%s const &x) { return x.core.look(); } };" % (X, X))
                regs = []
                for i, f in mine:
                    for n in self.rng.choice(([0], [1], [2], [0, 1], [1, 0, 1], [0, 0])):
                        regs.append((n, i))
                self.rng.shuffle(regs)
                T = NAME[mine[0][1]["params"][0][0] - 1]
                if self.prior[g] == "back":
                    body.append('  MetaType::registerConverter<%s, %s>([](%s const &x) { return K<%s>::make(x.core.look()); });' % (X, T, X, T))
                elif self.prior[g] == "taken":
                    body.append('  MetaType::registerConverter<%s, %s>([](%s const &) { return %s(Early{}); });' % (T, X, T, X))
                a = lambda i: ", ".join(FORM[x] % NAME[t - 1] for t, x in self.f[i - 1]["params"])
                split = self.rng.randrange(len(regs) + 1)
                reg = lambda part: "".join("\n    ._constructor<%s>(%s)" % (a(i), '"%s"' % NAMES[n] if n else "") for n, i in part)
                body.append('  global_define()._namespace("inv")._class<%s>("%s")%s;' % (X, X, reg(regs[:split])))
                body.append('  global_define()._namespace("inv")._class<%s>("%s")%s;' % (X, X, reg(regs[split:])))
                body.append("  classes.push_back(classOf<%s>(%d)); { Lookup<%s> l;" % (X, 100 + g, X))
                body += ['    l.add<%s>("%s");' % (a(i), NAMES[n]) for n, i in regs]
                first = {i: n for n, i in regs}
                body += ['    ctors[%d] = l.c->getConstructor<%s>(%s);' % (i - 1, a(i), '"%s"' % NAMES[n] if n else "") for i, n in first.items()]
                body.append("  }")
                self.decls.append([dict(n=n, p=i) for n, i in regs])
            tu("ctors%d" % k, src + body + ["}"])
            names.append("ctors%d" % k)
        spec = [f for f in self.f if f["res"][0] != "object"]
        src = ['#include "construct.h"', "void special() {"]
        for i, f in enumerate(self.f, 1):
            if f["res"][0] != "object":
                src.append("  ctors[%d] = MetaClass::find(metaTypeId<%s>())->%sConstructor();" % (i - 1, NAME[f["res"][1] - 1], f["res"][0]))
        src += ["  classes.push_back(classOf<%s>(%d));" % (NAME[j - 1], j) for j in (3, 4, 5, 6, 7)]
        tu("special", src + ["}"])
        names.append("special")
        for k in range(0, len(SLOTS), 20):
            tu("slots%d" % k, ['#include "invoke.h"\nvoid slots%d() {' % k] + ["  slots.push_back(new %s);" % s["cpp"] for s in SLOTS[k:k + 20]] + ["}"])
        sp = self.specials(tu)
        tu("fill", ['#include "construct.h"'] + ["void %s();" % n for n in names + sp] + ["void slots%d();" % k for k in range(0, len(SLOTS), 20)]
           + ["void makeConstructors() { ctors.resize(%d);" % len(self.f) + "".join("%s();" % n for n in names) + "}", "void makeSpecials() {" + "".join("%s();" % n for n in sp) + "}",
              "void makeSlots() {" + "".join("slots%d();" % k for k in range(0, len(SLOTS), 20)) + "".join(" kinds.push_back(new KindOf<%s>);" % n for n in NAME[:14]) + "}"])
        return tus + [HARN + "/construct_main.cpp"]

    def specials(self, tu):
        """all declarations of special members (those a compiler accepts)"""
        rows = list(itertools.product(("none", "user", "explicit", "deleted", "private"), ("none", "user", "mutable", "deleted", "private"),
                                      ("none", "user", "default", "deleted", "private"), ("plain", "moveonly", "copyonly", "copied", "reference"), (False, True), (False, True)))
        res = []
        for r in rows:
            D = dict(zip("dcmxoa", r))
            # abstract ones: a few are enough
            if D["a"] and (D["x"] != "plain" or D["d"] in ("private", "explicit")):
                continue
            if not D["a"] and D["x"] in ("copied", "reference") and (D["d"] == "explicit" or D["c"] == "mutable" or D["m"] == "private"):
                continue
            # those which can't be kept in a variant aren't registered unless nothing can be made at all
            own = D["m"] == "user" or (D["m"] == "default" and D["x"] != "copyonly") or (D["m"] == "none" and D["c"] == "none" and D["x"] != "copyonly")
            copy = not D["a"] and (D["c"] == "user" or (D["c"] == "none" and D["m"] == "none" and D["x"] != "moveonly"))
            store = not D["a"] and (copy or own)
            user = D["o"] or D["c"] != "none" or D["m"] != "none"
            dflt = not D["a"] and (D["d"] in ("user", "explicit") or (D["d"] == "none" and not user and D["x"] != "reference"))
            if dflt and not store:
                continue
            res.append((D, store, user))
        if not THOROUGH:
            res = [x for x in res if self.rng.random() < 0.25]
        names = []
        for k in range(0, len(res), 40):
            src, body = ['#include "construct.h"'], ["void specials%d() {" % k]
            for j, (D, store, user) in enumerate(res[k:k + 40], k):
                S = "S%d" % j
                member = {"plain": "", "moveonly": "M extra{0};", "copyonly": "CopyOnly extra;", "copied": "N extra{0};", "reference": "int const &extra;"}[D["x"]]
                init = ", extra(ints[0])" if D["x"] == "reference" else ""
                d = {"none": "", "user": "public: %s(): v(5)%s {}" % (S, init), "explicit": "public: explicit %s(): v(5)%s {}" % (S, init), "deleted": "public: %s() = delete;" % S,
                     "private": "private: %s(): v(5)%s {}" % (S, init)}[D["d"]]
                c = {"none": "", "user": "public: %s(%s const &o): v(o.v)%s {}" % (S, S, init), "mutable": "public: %s(%s &o): v(o.v)%s {}" % (S, S, init),
                     "deleted": "public: %s(%s const &) = delete;" % (S, S), "private": "private: %s(%s const &o): v(o.v)%s {}" % (S, S, init)}[D["c"]]
                m = {"none": "", "user": "public: %s(%s &&o): v(std::move(o.v))%s {}" % (S, S, init), "default": "public: %s(%s &&) = default;" % (S, S), "deleted": "public: %s(%s &&) = delete;" % (S, S),
                     "private": "private: %s(%s &&o): v(std::move(o.v))%s {}" % (S, S, init)}[D["m"]]
                o = "public: %s(Tag, int t): v(t)%s {}" % (S, init) if D["o"] else ""
                make = "return nullptr;"
                if not D["a"]:
                    if D["o"]:
                        make = "return new %s(Tag{}, t);" % S
                    elif D["d"] in ("user", "explicit", "private") or (D["d"] == "none" and not user and D["x"] != "reference"):
                        make = "auto p = new %s; p->v.core.put(t); return p;" % S
                src.append("class %s { %s %s %s %s public: Base v{5}; %s %s static %s *source(int t) { %s } };" % (S, d, c, m, o, member, "virtual void f() = 0;" if D["a"] else "", S, make))
                body.append('  global_define()._namespace("inv")._class<%s>("%s");' % (S, S))
                h = json.dumps(dict(D=D))[1:-1].replace('"', '\\"')
                body.append('  Specials<%s, %s>{}.run("%s");' % (S, "true" if store else "false", h))
            tu("specials%d" % k, src + body + ["}"])
            names.append("specials%d" % k)
        self.nspecials = len(res)
        return names

    def fits(self, f, a, by):
        if a and by == "direct" and SLOTS[a[0] - 1]["via"] == "plain" and SLOTS[a[0] - 1]["k"] == 14:
            return False
        return Catalog.fits(self, f, a, "args")


def ops15(cat, rng, scripts):
    """calls: special constructors don't throw; arguments directly or wrapped"""
    res = []
    for ops in scripts:
        new = []
        for o in ops:
            if o["op"] == "call":
                o = dict(o)
                o["by"] = "direct" if o["a"] and rng.random() < 0.5 and cat.fits(o["f"], o["a"], "direct") else "args"
                if cat.f[o["f"] - 1]["res"][0] != "object":
                    o["thr"] = False
            new.append(o)
        res.append(new)
    return res


def conversions(cat, rng):
    ops = []
    for f, F in enumerate(cat.f, 1):
        if len(F["params"]) != 1 or F["res"][0] != "object" or F["params"][0][1] not in "vc":
            continue
        t = F["params"][0][0]
        for s in VARS:
            k = SLOTS[s - 1]["k"]
            if (t <= 7 or k in (0, t)) and (k == 0 or k == t or (t in (1, 2, 3, 7) and k in (1, 2, 3, 7))):
                # constructor functions of explicit ones aren't converters, nor those of move-only parameters
                ops.append(dict(op="conv", f=f, by="", thr=rng.random() < 0.1, a=[s], s=0, t=0))
    rng.shuffle(ops)
    return [with_sets(rng, cat, ops[k:k + 60]) for k in range(0, len(ops), 60)]


def exhaustive15(cat, rng, share):
    scripts = exhaustive(cat, rng, share)
    calls = []
    for f in range(cat.basic + 1, len(cat.f) + 1):
        if cat.f[f - 1]["res"][0] == "object":
            continue
        n = len(cat.f[f - 1]["params"])
        calls += [call(f, "args", False, [s]) for s in range(1, len(SLOTS) + 1) if n == 1 or s % 20 == 0]
        calls += [call(f, "args", False, rng.sample(range(1, len(SLOTS) + 1), k)) for k in (0, 0, 2, 3, 10)]
    calls = [c for c in calls if cat.fits(c["f"], c["a"], "args")]
    rng.shuffle(calls)
    return scripts + [with_sets(rng, cat, calls[k:k + 80]) for k in range(0, len(calls), 80)]


def lines15(cat, ops):
    def one(o):
        if o["op"] == "set":
            return "set %d %d\n" % (o["s"], o["t"])
        if o["op"] == "conv":
            return "conv %d %d %d %d\n" % (o["f"], cat.f[o["f"] - 1]["res"][1], o["thr"], o["a"][0])
        return "call %d %s %d %s\n" % (o["f"], o["by"], o["thr"], " ".join(map(str, o["a"])))
    return "".join(map(one, ops)) + SEP + "\n"


def observe15(chk, cat, exe, scripts):
    n = max(1, (len(scripts) + NCPU * 2 - 1) // (NCPU * 2))
    parts = [scripts[k:k + n] for k in range(0, len(scripts), n)]
    head = []

    def one(p):
        rc, so, se = chk.run(exe, inp="".join(lines15(cat, x) for x in p).encode(), timeout=300)
        if SEP not in so.split("\n"):
            return [], [dict(crash="while defining: %s" % rc)] * len(p), se
        i = so.split("\n").index(SEP)
        rows = [json.loads(l) for l in so.split("\n")[i + 1:] if l]
        return [json.loads(l) for l in so.split("\n")[:i] if l], rows + [dict(crash=str(rc))] * (len(p) - len(rows)), se
    out, err = [], ""
    with concurrent.futures.ThreadPoolExecutor(NCPU) as ex:
        for h, rows, se in ex.map(one, parts):
            head = h or head
            out += rows
            err += se[:2000]
    return head, out, err


def spelled15(cat, o):
    if o["op"] == "set":
        return "set slot %d to %d" % (o["s"], o["t"])
    F = cat.f[o["f"] - 1]
    return "%s constructor of %s from (%s) %s %s" % (F["res"][0], F["res"][1], ", ".join(FORM[f] % NAME[t - 1] for t, f in F["params"]), o["op"], ", ".join(SLOTS[s - 1]["cpp"] for s in o["a"]))


def conform15(chk, cat, exe, scripts, what):
    scripts = ops15(cat, chk.rng, scripts)
    head, rows, err = observe15(chk, cat, exe, scripts)
    bad, crash = [], [i for i, r in enumerate(rows) if "crash" in r]
    if crash:
        _, again, err = observe15(chk, cat, exe, [scripts[i] for i in crash])
        for i, r in zip(crash, again):
            if "crash" in r:
                bad.append((i, len(scripts[i]), ["crash"], err[:1500]))
            rows[i] = r
    keep = [i for i, r in enumerate(rows) if "ev" in r]
    data = [dict(kind="calls", ev=[dict(e, o=o) for o, e in zip(scripts[i], rows[i]["ev"])]) for i in keep]
    first = "random" not in what and "model" not in what
    tab = []
    if first:
        n = 0
        for h in head:
            if h["kind"] == "lookup":
                h["decl"] = cat.decls[n]
                n += 1
            tab.append(h)
        chk.cov["classes_of_special_members"] = sum(h["kind"] == "specials" for h in tab)
        chk.cov["special_attempts"] = sum(len(h["got"]) for h in tab if h["kind"] == "specials")
        chk.cov["constructors_looked_up"] = sum(len(h["decl"]) for h in tab if h["kind"] == "lookup")
    r = chk.validate("ConstructTrace", "SPECIFICATION Spec\n", dict(tables(cat), SCRIPTS=data + tab), heap="12g")
    chk.cov["states"] += r["distinct"]
    chk.cov["transitions"] += r["generated"]
    chk.cov["traces_validated_against_impl"] += len(data) + len(tab)
    ev = [e for d in data for e in d["ev"] if e["o"]["op"] != "set"]
    for e in ev:
        k = "%s_%s" % (e["o"]["op"], e["out"])
        chk.cov[k] = chk.cov.get(k, 0) + 1
    for e in ev[:600:200]:
        chk.sample(e)
    reports = [(k, 1, ["outside of the specification's domain"], "") for k in r["undef"]] + [(b["s"], b["l"], sorted(b["why"]), b["exp"]) for b in tagged(r["out"], "BAD")]
    for k, l, why, exp in reports:
        if k <= len(data):
            bad.append((keep[k - 1], l, why, exp))
        else:
            x = tab[k - len(data) - 1]
            chk.violation("construct:%s:%s" % (x["kind"], "_".join(why).replace(" ", "-")), "%s: %s: %s" % (x["kind"], ", ".join(why), json.dumps(x)[:600]), x)
    for i, l, why, exp in bad[:10]:
        e = rows[i]["ev"][l - 1] if "ev" in rows[i] else None
        chk.violation("construct:%s:%d" % ("_".join(why).replace(" ", "-"), l), "%s: %s: %s gave %s" % (what, ", ".join(why), spelled15(cat, scripts[i][l - 1]), e),
                      dict(script=[spelled15(cat, o) for o in scripts[i][max(0, l - 6):l]], lines=lines15(cat, scripts[i][:l]), observed=e, expected=exp))
    chk.log("%s: %d scripts, %d steps, %d bad" % (what, len(scripts), len(ev), len(reports)))


def c15(pid):
    chk = Check(pid)
    design = chk.design_async("ConstructMC", "SPECIFICATION Spec\nINVARIANTS Defined Harmless Conserved Intact AbstractHasNone Forbidden CopyableIsMovable\n", "special members", data=dict(SLOTS=[], FUNS=[], TY=[]))
    for round in range(1 if not THOROUGH else 6):
        rng = chk.rng = random.Random(SEED * 32452843 + round)
        cat = Constructors(rng)
        exe = chk.build(cat.generate(chk), name="driver%d" % round)
        if not exe:
            return chk.compile_failed()
        conform15(chk, cat, exe, exhaustive15(cat, rng, 0.3 if not THOROUGH else 1.0) + conversions(cat, rng), "every parameter with every argument")
        conform15(chk, cat, exe, [random_script(cat, rng, 40) for _ in range(150 if not THOROUGH else 2000)], "random calls")
        from_model(chk, cat, exe, rng, 2 if not THOROUGH else 8, 50 if not THOROUGH else 100, 2 if not THOROUGH else 3, conform=conform15)
        if chk.found:
            break
    design.result()
    return chk.finish()
