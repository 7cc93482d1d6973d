"""C03: typed access to variants (spec/Access.tla)."""
from vlib import *
from types_gen import cpp

OPS = ["is<T>()", "is<T>() const", "is<T&>()", "is<T&>() const", "is<T&&>()", "is<T&&>() const", "ref<T>() &", "ref<T>() const&",
       "ref<T>() &&", "rref<T>() &&", "cref<T>()", "cref<T>() const", "data<T>()", "data<T>() const", "to<T>()", "to<T>() const",
       "canConvert<T>()", "canConvert<T>() const"]
BASE = {1: "int", 2: "Big"}


def access_table(chk):
    r = chk.design("AccessMC", "SPECIFICATION Spec\nINVARIANT Inv\nCONSTANTS MaxA = %d Big = 1\n" % (2 if not THOROUGH else 3),
                   "Access: no mutable path, laws between the ways of access")
    held, asked = tagged(r["out"], "HELD"), tagged(r["out"], "ASKED")
    order = lambda t: (t["b"], t["n"], t["a"], t["c"])
    held.sort(key=order)
    asked.sort(key=order)
    src_pre = '#include "access_common.h"\n'
    tus, fills = [], []
    per = 16
    for k in range(0, len(asked), per):
        n = len(fills)
        p = "%s/ask%d.cpp" % (chk.tmp, n)
        open(p, "w").write(src_pre + "void fill%d() {\n%s}\n" % (n, "".join(
            "  askers.push_back({&ask<%s>});\n" % cpp(t, BASE[t["b"]]) for t in asked[k:k + per])))
        fills.append(n)
        tus.append(p)
    makers = []
    for t in held:
        c = cpp(t, BASE[t["b"]])
        u = dict(t)
        v = dict(t)
        # by value: the copy isn't const (for arrays: elements aren't)
        v["c"] = v["c"][:-1] + [False]
        makers.append((u, "ref", "make_ref<%s>" % c))
        makers.append((v, "value", "make_val<%s, 0>" % c))
        makers.append((v, "moved value", "make_val<%s, 1>" % c))
    for k in range(0, len(makers), 60):
        n = len(fills)
        p = "%s/make%d.cpp" % (chk.tmp, n)
        open(p, "w").write(src_pre + "void fill%d() {\n%s}\n" % (n, "".join("  makers.push_back(&%s);\n" % m[2] for m in makers[k:k + 60])))
        fills.append(n)
        tus.append(p)
    p = chk.tmp + "/fill.cpp"
    open(p, "w").write("".join("void fill%d();\n" % n for n in fills) + "void fill_all() {%s}\n" % "".join("fill%d();" % n for n in fills))
    exe = chk.build(tus + [p, HARN + "/access_main.cpp"], san="asan")
    if not exe:
        return False

    def observe():
        rc, out, err = chk.run(exe)
        rows = [json.loads(l) for l in out.splitlines()]
        if rc or len(rows) != len(makers) + 1:
            return None, "access driver ended with %s after %d rows: %s" % (rc, len(rows), err[:1500])
        for i, row in enumerate(rows):
            row["ask"] = list(range(1, len(asked) + 1))
            row["empty"] = i == len(makers)
            row["u"] = makers[i][0] if i < len(makers) else dict(a=0, c=[False], r="n", n=0, b=0)
        return rows, None
    rows, err = observe()
    if rows is None:
        rows, err = observe()
    if rows is None:
        chk.violation("access_crash", err, dict(err=err))
        return True
    for i, row in enumerate(rows):
        if row["failed"]:
            chk.violation("hold:%d" % i, "variant holding %s by %s can't be read as its own type" % (cpp(makers[i][0], BASE[makers[i][0]["b"]]), makers[i][1]), makers[i])
    good = [(i, row) for i, row in enumerate(rows) if not row["failed"]]
    r = chk.validate("AccessTrace", "SPECIFICATION Spec\n", dict(TYPES=asked, ROWS=[row for i, row in good]), var="i")
    chk.cov["states"] += r["distinct"]
    chk.cov["transitions"] += r["generated"]
    chk.cov["traces_validated_against_impl"] += len(good)
    chk.cov["accesses"] = sum(len(x) for i, row in good for x in row["res"])
    chk.sample(dict(held=makers[3][0], mode=makers[3][1], asked=asked[2], results=rows[3]["res"][2]))
    for k in r["undef"]:
        chk.violation("undefined", "results of accesses are outside of the specification's domain", good[k - 1][1])
    for bad in tagged(r["out"], "BAD")[:10]:
        i = good[bad["i"] - 1][0]
        m = makers[i] if i < len(makers) else (None, "empty", "")
        what = "variant holding %s by %s" % (cpp(m[0], BASE[m[0]["b"]]), m[1]) if m[0] else "empty variant"
        if not bad["same"]:
            chk.violation("changed:%s" % what.replace(" ", "_"), "%s: changed by access" % what, dict(held=m))
        for k, j in bad["b"][:3]:
            t = cpp(asked[k - 1], BASE[asked[k - 1]["b"]])
            got = {0: "refuses", 1: "succeeds", 2: "designates something else or fails in another way"}.get(rows[i]["res"][k - 1][j - 1])
            chk.violation(("%s:%s:%s" % (what, t, OPS[j - 1])).replace(" ", "_"), "%s: %s with T = %s %s, which the specification does not allow"
                          % (what, OPS[j - 1], t, got), dict(held=m, asked=t, op=OPS[j - 1], got=got))
    return True


def c03(pid):
    chk = Check(pid)
    import check_classes
    if not access_table(chk):
        return chk.compile_failed()
    hs = check_classes.fixed_hiers()
    if not THOROUGH:
        hs = chk.rng.sample(hs, 4)
    hs += [check_classes.random_hier(chk.rng, chk.rng.choice((4, 5))) for _ in range(1 if not THOROUGH else 20)]
    if not check_classes.run_classes(chk, ops=set(range(14)), metas=False, hiers=hs):
        return chk.compile_failed()
    return chk.finish()
