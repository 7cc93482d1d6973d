"""C11 (and the class part of C03, C04): class hierarchies, casts, access to classes held by variants (spec/Classes.tla)."""
from vlib import *

OPS = ["is", "is const", "is l", "is l const", "is r", "is r const", "ref&", "ref const&", "ref&&", "rref&&", "cref", "cref const",
       "data", "data const", "to", "to const", "canConvert", "canConvert const"]


class Hier:
    """A hierarchy of C++ classes: bases[c] = [(base, virtual)], declared bases, registered, classInfo."""

    def __init__(self, bases, decl=None, reg=None, ci=(), empty=(), lazy=(), nonpoly=None):
        self.n = len(bases)
        self.bases = {c + 1: b for c, b in enumerate(bases)}
        self.reg = set(reg if reg is not None else range(1, self.n + 1))
        self.ci, self.empty, self.lazy = set(ci), set(empty), set(lazy)
        self.layout = {c: self._layout(c) for c in self.bases}
        if decl is None:
            decl = {c: [b for b, v in self.bases[c] if b in self.reg] if c in self.reg else [] for c in self.bases}
        self.decl = decl

    def _layout(self, d):
        """sub-objects of a complete d: list of (class, path of direct bases, {direct base: index})"""
        subs, virt = [], {}

        def build(c, path):
            i = len(subs)
            subs.append([c, path, {}])
            for b, v in self.bases[c]:
                if v:
                    if b not in virt:
                        virt[b] = build(b, path + [b])
                    subs[i][2][b] = virt[b]
                else:
                    subs[i][2][b] = build(b, path + [b])
            return i
        build(d, [])
        return subs

    def conv(self, d, s, b):
        """index of the unambiguous sub-object b of sub-object s, or None"""
        seen, todo = set(), [s]
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            todo += self.layout[d][x][2].values()
        hit = [x for x in seen if self.layout[d][x][0] == b]
        return hit[0] if len(hit) == 1 else None

    def ok(self):
        for c in self.bases:
            for b, v in self.bases[c]:
                if self.conv(c, 0, b) is None:     # inaccessible direct base
                    return False
            # a class without classInfo of its own deriving virtually from one having it: out of claim (DESIGN.md)
            if c not in self.ci and any(v and self.has_ci(b) for b, v in self.bases[c]):
                return False
            cis = [b for b, v in self.bases[c] if self.has_ci(b)]
            if len(cis) > 1 and c not in self.ci:
                leaf = not any(b == c for x in self.bases.values() for b, v in x)
                if not leaf or any(v for x in self.bases.values() for b, v in x):
                    return False
        return True

    def has_ci(self, c):
        return c in self.ci or sum(self.has_ci(b) for b, v in self.bases[c]) == 1

    def json(self):
        return dict(n=self.n, decl=[self.decl[c] for c in sorted(self.bases)], reg=sorted(self.reg), ci=sorted(self.ci),
                    base=[[b for b, v in self.bases[c]] for c in sorted(self.bases)],
                    sub=[[dict(c=s[0], to=[(lambda k: 0 if k is None else k + 1)(self.conv(d, i, b)) for b in sorted(self.bases)])
                          for i, s in enumerate(self.layout[d])] for d in sorted(self.bases)])

    # ------------------------------------------------------------------ C++
    def header(self, g, lines):
        o = ["#pragma once", '#include "classes_common.h"', "namespace g%d {" % g]
        for c in sorted(self.bases):
            bs = ", ".join(("virtual " if v else "") + "K%d" % b for b, v in self.bases[c])
            body = ("long const *own() const { return nullptr; }" if c in self.empty else
                    "long own_ = %d; long const *own() const { return &own_; }" % c)
            if c in self.ci:
                body += " DECLARE_CLASSINFO public:"
            o.append("struct K%d%s { %s };" % (c, ": " + bs if bs else "", body))
        for d in sorted(self.bases):
            o.append("inline Subs subs(K%d *p, bool stamp) { Subs r;" % d)
            for i, (c, path, to) in enumerate(self.layout[d]):
                e = "p"
                for b in path:
                    e = "static_cast<K%d*>(%s)" % (b, e)
                st = "" if c in self.empty else "if (stamp) x->own_ = %d;" % (d * 100 + i + 1)
                o.append(" { auto x = %s; %s r.push_back({%d, x, %s}); }" % (
                    e, st, c, "nullptr" if c in self.empty else "&x->own_"))
            o.append(" return r; }")
        o.append("}")
        return "\n".join(o)

    def define(self, g, rng):
        o = ['#include "g%d.h"' % g, "namespace g%d {" % g, "void define() {",
             ' auto glob = rtti::global_define(); auto ns = glob._namespace("g%d");' % g]
        for c in sorted(self.bases):
            if c not in self.reg:
                continue
            calls, d = "", list(self.decl[c])
            while d:
                k = rng.randrange(1, len(d) + 1)
                calls += "._base<%s>()" % ", ".join("K%d" % b for b in d[:k])
                d = d[k:]
            if c in self.lazy:
                o.append(' ns._class<K%d>("K%d")._lazy([](rtti::meta_define<K%d> x) { x%s; })._end();' % (c, c, c, calls))
            else:
                o.append(' ns._class<K%d>("K%d")%s._end();' % (c, c, calls))
        o.append("}")
        o.append("void inherit() { using rtti::MetaClass; MetaClass const *c[] = {%s};" % ", ".join(
            "MetaClass::find(rtti::metaTypeId<K%d>())" % c for c in sorted(self.bases)))
        o.append(" for (int i = 0; i < %d; ++i) for (int j = 0; j < %d; ++j) if (c[i]) std::printf("
                 "\"{\\\"kind\\\":\\\"inherit\\\",\\\"g\\\":%d,\\\"c\\\":%%d,\\\"b\\\":%%d,\\\"ok\\\":%%s}\\n\", i + 1, j + 1, c[i]->inheritedFrom(c[j]) ? \"true\" : \"false\"); }" % (self.n, self.n, g + 1))
        o.append("void ids() { class_ids[%d] = {%s}; graphs[%d].define = &define; }" % (
            g, ", ".join("rtti::metaTypeId<K%d>()" % c for c in sorted(self.bases)), g))
        o.append("}")
        return "\n".join(o)


def jtype(a, c, n=0):
    return '{\\"a\\":%d,\\"c\\":[%s],\\"r\\":\\"n\\",\\"n\\":%d}' % (a, ",".join("true" if x else "false" for x in c), n)


SHAPES = [(0, [0]), (0, [1]), (1, [0, 0]), (1, [1, 0]), (1, [0, 1]), (1, [1, 1]), (2, [0, 0, 0])]


def spell(k, a, c):
    s = "K%d%s" % (k, " const" if c[0] else "")
    for i in range(1, a + 1):
        s += "*" + (" const" if c[i] else "")
    return s


def gen_hold(h, g, rng, full):
    """functions making variants; grouped into functions per complete class"""
    fs = []
    for d in sorted(h.bases):
        o = ["void hold%d() { static K%d obj; auto all = subs(&obj, true); (void)all;" % (d, d)]
        lay = h.layout[d]

        def emit(expr, c, s, a, cs, n=0, own=False, pre="", where="nullptr", pointee="nullptr", subs="all"):
            o.append(" { Held h; h.graph = %d; h.d = %d; h.s = %d; h.c = %d; h.type = \"%s\"; h.own = %s; h.level = %d; h.array = %s; %s h.v = %s; h.subs = %s; h.where = %s; h.pointee = %s; run_held(h); }"
                     % (g, d, s, c, jtype(a, cs, n), "true" if own else "false", a, "true" if n else "false", pre, expr, subs, where, pointee))
        # by value (copy recognised by its own address)
        emit("obj", d, 1, 0, [0], subs="subs(&h.v.ref<K%d>(), false)" % d)
        emit("std::ref(obj)", d, 1, 0, [0])
        emit("std::cref(obj)", d, 1, 0, [1])
        # array of objects by value, by reference
        emit("arr", d, 1, 0, [0], n=2, pre="static K%d arr[2];" % d, pointee="&h.v.ref<K%d[2]>()" % d)
        emit("std::cref(arr)", d, 1, 0, [1], n=2, pre="static K%d arr[2];" % d, pointee="&arr")
        # null
        emit("q", d, 0, 1, [0, 0], own=True, pre="K%d *q = nullptr;" % d, where="&h.v.ref<K%d*>()" % d)
        emit("q", d, 0, 1, [1, 0], own=True, pre="K%d const *q = nullptr;" % d, where="&h.v.ref<K%d const*>()" % d)
        emit("qq", d, 1, 2, [0, 0, 0], own=True, pre="static K%d *q = &obj; auto qq = &q;" % d, where="&h.v.ref<K%d**>()" % d, pointee="&q")
        for i, (c, path, to) in enumerate(lay):
            e = "&obj"
            for b in path:
                e = "static_cast<K%d*>(%s)" % (b, e)
            kinds = ["p", "pc", "rp", "crp", "pcc"] + (["r", "cr"] if i else [])
            if not full and i:
                kinds = rng.sample(kinds, 4)
            for k in kinds:
                if k == "p":
                    emit("q", c, i + 1, 1, [0, 0], own=True, pre="auto q = %s;" % e, where="&h.v.ref<K%d*>()" % c)
                elif k == "pc":
                    emit("q", c, i + 1, 1, [1, 0], own=True, pre="K%d const *q = %s;" % (c, e), where="&h.v.ref<K%d const*>()" % c)
                elif k == "pcc":   # const pointer held by value: the copy isn't const
                    emit("q", c, i + 1, 1, [1, 0], own=True, pre="K%d const *const q = %s;" % (c, e), where="&h.v.ref<K%d const*>()" % c)
                elif k == "rp":
                    emit("std::ref(q)", c, i + 1, 1, [0, 0], pre="auto q = %s;" % e, where="&q")
                elif k == "crp":
                    emit("std::cref(q)", c, i + 1, 1, [1, 1], pre="K%d const *q = %s;" % (c, e), where="&q")
                elif k == "r":
                    emit("std::ref(*q)", c, i + 1, 0, [0], pre="auto q = %s;" % e)
                elif k == "cr":
                    emit("std::cref(*q)", c, i + 1, 0, [1], pre="auto q = %s;" % e)
        o.append("}")
        # meta_cast
        o.append("void meta%d() { static K%d obj; auto all = subs(&obj, true); (void)all;" % (d, d))
        for i, (c, path, to) in enumerate(lay):
            e = "&obj"
            for b in path:
                e = "static_cast<K%d*>(%s)" % (b, e)
            for b in sorted(h.bases):
                o.append(" metas<K%d, K%d, %d>(%d, %d, %d, all, %s);" % (b, c, b, g + 1, d, i + 1, e))
        o.append("}")
        fs.append("\n".join(o))
    return fs


def order(h, g, rng):
    """what looks first at classes whose bases are deferred: accesses through variants, casts or queries"""
    parts = [["hold%d" % d for d in sorted(h.bases)], ["meta%d" % d for d in sorted(h.bases, reverse=True)], ["inherit"]]
    parts = [parts[i] for i in ((1, 0, 2), (2, 1, 0), (0, 1, 2))[g % 3]]
    res = [f for p in parts for f in p]
    if g > 10 and rng.random() < 0.3:
        rng.shuffle(res)
    return res


def random_hier(rng, n):
    while True:
        bases = []
        for c in range(1, n + 1):
            k = min(c - 1, rng.choice((0, 1, 1, 2, 2, 3)))
            if c == 1:
                k = 0
            bs = rng.sample(range(1, c), k)
            bases.append([(b, rng.random() < 0.3) for b in bs])
        style = rng.choice(("all", "none", "some", "some", "roots"))
        ci = {"all": list(range(1, n + 1)), "none": [], "some": [c for c in range(1, n + 1) if rng.random() < 0.6],
              "roots": [c for c in range(1, n + 1) if not bases[c - 1] or rng.random() < 0.3]}[style]
        try:
            h = Hier(bases, ci=ci)
        except RecursionError:
            continue
        if not h.ok() or max(len(l) for l in h.layout.values()) > 12 or sum(map(len, bases)) < n - 1:
            continue
        reg = [c for c in range(1, n + 1) if rng.random() < (0.85 if rng.random() < 0.5 else 1)]
        empty = [c for c in range(1, n + 1) if rng.random() < 0.15]
        lazy = [c for c in range(1, n + 1) if rng.random() < 0.4]
        decl = {}
        for c in range(1, n + 1):
            ds = []
            if c in reg:
                cand = [b for b, v in bases[c - 1] if b in reg]
                # an indirect base may be declared as well
                cand += [b for b in range(1, c) if b in reg and b not in cand and h.conv(c, 0, b) is not None
                         and rng.random() < 0.25]
                rng.shuffle(cand)
                ds = [b for b in cand if rng.random() < 0.9]
            decl[c] = ds
        return Hier(bases, decl, reg, ci, empty, lazy)


def fixed_hiers():
    chain = Hier([[], [(1, 0)], [(2, 0)], [(3, 0)]], ci=[1, 2, 3, 4], lazy=[2, 3, 4])
    mi = Hier([[], [], [], [(1, 0), (2, 0), (3, 0)], [(4, 0)]], ci=[1, 2, 3, 4, 5], lazy=[4, 5])
    plain = Hier([[], [], [(1, 0), (2, 0)], [(3, 0)]], ci=[], empty=[2])
    virt = Hier([[], [(1, 1)], [(1, 1)], [(2, 0), (3, 0)], [(4, 1)]], ci=[1, 2, 3, 4, 5], lazy=[2, 4, 5])
    diamond = Hier([[], [(1, 0)], [(1, 0)], [(2, 0), (3, 0)], [(4, 0)]], ci=[1, 2, 3, 4, 5])
    ambiguous = Hier([[], [], [(1, 0)], [(2, 0)], [(3, 0), (4, 0)]], ci=[1, 2, 3, 4], lazy=[3, 5])
    partial = Hier([[], [(1, 0)], [(2, 0)], [], [(3, 0), (4, 0)]], decl={1: [], 2: [1], 3: [2], 4: [], 5: [4, 3]}, ci=[1, 3, 5], empty=[4])
    skip = Hier([[], [(1, 0)], [(2, 0)]], decl={1: [], 2: [], 3: [1]}, reg=[1, 3], ci=[1, 2, 3])
    return [chain, mi, plain, virt, diamond, ambiguous, partial, skip]


def run_classes(chk, ops=None, metas=True, hiers=None):
    """ops: indexes of access operations to judge (None: all)"""
    rng = chk.rng
    if hiers is None:
        hiers = fixed_hiers()
        hiers += [random_hier(rng, rng.choice((4, 5, 6, 7))) for _ in range(6 if not THOROUGH else 40)]
    tus, decls, fill = [], [], ["graphs.resize(%d); class_ids.resize(%d);" % (len(hiers), len(hiers))]
    asks = []
    for g, h in enumerate(hiers):
        open("%s/g%d.h" % (chk.tmp, g), "w").write(h.header(g, None))
        p = "%s/def%d.cpp" % (chk.tmp, g)
        open(p, "w").write(h.define(g, rng))
        tus.append(p)
        decls.append("namespace g%d { void ids(); void asks(); void holds(); }" % g)
        fill.append("g%d::ids(); g%d::asks(); g%d::holds();" % (g, g, g))
        lst = [(k, a, c) for k in sorted(h.bases) for a, c in (SHAPES if k <= 3 or len(h.bases) < 5 else SHAPES[:5])]
        asks.append(dict(ask=[dict(b=k, a=a, c=[bool(x) for x in c], r="n", n=0) for k, a, c in lst]))
        p = "%s/ask%d.cpp" % (chk.tmp, g)
        half = (len(lst) + 1) // 2
        open(p, "w").write('#include "g%d.h"\nnamespace g%d { void asks2(); void asks() { auto &v = graphs[%d].asks; %s asks2(); } }\n' % (
            g, g, g, "\n".join("v.push_back(&ask<%s, K%d, %d>);" % (spell(k, a, c), k, k) for k, a, c in lst[:half])))
        tus.append(p)
        p = "%s/askb%d.cpp" % (chk.tmp, g)
        open(p, "w").write('#include "g%d.h"\nnamespace g%d { void asks2() { auto &v = graphs[%d].asks; %s } }\n' % (
            g, g, g, "\n".join("v.push_back(&ask<%s, K%d, %d>);" % (spell(k, a, c), k, k) for k, a, c in lst[half:])))
        tus.append(p)
        p = "%s/hold%d.cpp" % (chk.tmp, g)
        fs = gen_hold(h, g, rng, THOROUGH)
        open(p, "w").write('#include "g%d.h"\nnamespace g%d {\n%s\nvoid inherit(); void holds() { graphs[%d].hold = {%s}; }\n}\n' % (
            g, g, "\n".join(fs), g, ", ".join("&" + f for f in order(h, g, rng))))
        tus.append(p)
    p = chk.tmp + "/fill_classes.cpp"
    open(p, "w").write('#include "classes_common.h"\n' + "\n".join(decls) + "\nvoid fill_all() { %s }\n" % " ".join(fill))
    exe = chk.build(tus + [p, HARN + "/classes_main.cpp"], name="classes", san="asan")
    if not exe:
        return False

    def observe():
        rc, out, err = chk.run(exe)
        rows = []
        for l in out.splitlines():
            try:
                rows.append(json.loads(l))
            except ValueError:
                pass
        return rc, rows, err
    rc, rows, err = observe()
    if rc:
        rc, rows, err = observe()
    if rc:
        chk.violation("classes_crash", "access to class hierarchies ended with %s after %d results: %s" % (rc, len(rows), err[:1500]), dict(err=err[:4000], seed=SEED))
        return True
    if not metas:
        rows = [x for x in rows if x["kind"] == "held"]
    if ops is not None:
        for x in rows:
            if x["kind"] == "held":
                x["res"] = [[y if j in ops else [-9] for j, y in enumerate(r)] for r in x["res"]]
    graphs = [h.json() for h in hiers]
    r = chk.validate("ClassesTrace", "SPECIFICATION Spec\n", dict(ROWS=rows, GRAPHS=graphs, ASKS=asks), var="i", timeout=850)
    chk.cov["states"] += r["distinct"]
    chk.cov["transitions"] += r["generated"]
    chk.cov["traces_validated_against_impl"] += len(rows)
    chk.cov["hierarchies"] = len(hiers)
    chk.cov["class_accesses"] = sum(1 for x in rows if x["kind"] == "held" for k in x["res"] for y in k if y != [-9])
    chk.cov["meta_casts"] = sum(1 for x in rows if x["kind"] == "meta")
    chk.sample(dict(hierarchy=graphs[1]["base"], row=[x for x in rows if x["kind"] == "held"][5]["h"]))
    for k in r["undef"]:
        chk.violation("undefined", "results of accesses are outside of the specification's domain", rows[k - 1])
    for bad in tagged(r["out"], "BAD")[:12]:
        x = rows[bad["i"] - 1]
        h = hiers[x["g"] - 1]
        ctx = dict(hierarchy=graphs[x["g"] - 1], row={k: v for k, v in x.items() if k not in ("res", "ask")})
        if x["kind"] == "inherit":
            chk.violation("inherit", "inheritedFrom(K%d, K%d) = %s contradicts the declared bases %s" % (x["c"], x["b"], x["ok"], h.decl), ctx)
        elif x["kind"] == "meta":
            ctx["res"] = x["res"]
            chk.violation("meta", "meta_cast<K%d> (%s) of sub-object %d of a complete K%d gives sub-object %s, not the specified one"
                          % (x["b"], x["op"], x["s"], x["d"], x["res"]), ctx)
        else:
            for k, j in bad["b"][:3]:
                if k == 0:
                    chk.violation("held", "variant holding K%d (%s): %s" % (x["h"]["c"], x["h"]["t"], "changed by access" if j == 1 else "wrong metaClass() %s" % x["mc"]), ctx)
                else:
                    a = asks[x["g"] - 1]["ask"][k - 1]
                    chk.violation("held", "variant holding %s of sub-object %d of complete K%d: %s as %s gives %s, not what the specification allows"
                                  % (spell(x["h"]["c"], x["h"]["t"]["a"], x["h"]["t"]["c"]) + ("[%d]" % x["h"]["t"]["n"] if x["h"]["t"]["n"] else ""),
                                     x["h"]["s"], x["h"]["d"], OPS[j - 1], spell(a["b"], a["a"], a["c"]), x["res"][k - 1][j - 1]),
                                  dict(ctx, ask=a, op=OPS[j - 1], res=x["res"][k - 1][j - 1]))
    return True


def c11(pid):
    chk = Check(pid)
    des = chk.design_async("ClassesMC", "SPECIFICATION Spec\nINVARIANT Inv\nPROPERTY Monotone\nCONSTANT N = %d\n" % (4 if not THOROUGH else 5),
                           "Classes: closure, cast paths, monotonicity")
    if not run_classes(chk):
        return chk.compile_failed()
    des.result()
    return chk.finish()
