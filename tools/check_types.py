"""C07, C08: type structures, compatibility and descriptions (spec/Types.tla, Describe.tla)."""
import json, os
from vlib import *
from types_gen import *

BASES = ["int", "char", "bool", "unsigned long long", "double", "float", "void", "probe::S", "probe::Abs", "probe::Poly",
         "probe::NoDef", "probe::NoCopy", "probe::MoveOnly", "probe::NoAssign", "probe::Eq", "probe::E", "probe::EC", "probe::U",
         "probe::CopyAssignOnly", "probe::Private", "probe::Big", "probe::inner::S", "std::string",
         "probe::Tpl<int, char const*>", "probe::Tpl<probe::S, int>", "probe::Tpl<int, probe::S>", "probe::Arr<int, 2>", "probe::Arr<int, 3>",
         "std::vector<std::string>", "int probe::S::*", "MfnP", "FnVI", "FnDD", "wchar_t", "signed char",
         "std::nullptr_t", "long", "long long"]
NOVAL = {"void", "FnVI", "FnDD"}


def types_from_tlc(chk):
    r = chk.design("TypesMC", "TypesMC.cfg", "Types: soundness, transitivity, algorithm = C++ rule")
    ts = tagged(r["out"], "TYPE")
    if len(ts) != 312:
        raise ModelError("expected 312 types, got %d" % len(ts))
    ts.sort(key=lambda t: (t["n"], t["a"], t["r"], t["c"]))
    return ts


def c07(pid):
    chk = Check(pid)
    space = types_from_tlc(chk)
    items = [(t, "int") for t in space]
    rng = chk.rng
    # deep types: families of near neighbours
    deep = []
    for a in (range(5, 16) if not THOROUGH else list(range(5, 16)) * 4):
        seeds = [[rng.random() < p for _ in range(a + 1)] for p in (0.2, 0.8)]
        seeds.append([False] * (a + 1))
        seeds.append([True] * (a + 1))
        fam = []
        for s in seeds:
            fam.append(s)
            for _ in range(2):
                m = list(s)
                for _ in range(rng.choice((1, 1, 2))):
                    k = rng.randrange(a + 1)
                    m[k] = not m[k]
                fam.append(m)
            k = rng.randrange(a + 1)
            fam.append([x or j > k for j, x in enumerate(s)])
            fam.append([x or j >= k for j, x in enumerate(s)])
        seen = []
        for c in fam:
            for r in "nlr":
                if rng.random() < (0.6 if r != "n" else 0.8):
                    t = dict(a=a, c=c, r=r, n=0)
                    if t not in seen:
                        seen.append(t)
        deep.append(seen)
    groups = [list(range(1, len(items) + 1))]
    have = {key(t): i + 1 for i, (t, b) in enumerate(items)}
    for g in deep:
        ids = []
        for t in g:
            if key(t) not in have:
                items.append((t, "int"))
                have[key(t)] = len(items)
            ids.append(have[key(t)])
        groups.append(sorted(set(ids)))
    # another base, to show that the base does not matter
    for base in (["probe::Poly"] if not THOROUGH else ["probe::Poly", "void", "FnVI", "probe::E"]):
        sub = rng.sample([t for t in space if t["a"] >= (1 if base in NOVAL else 0)], 90 if not THOROUGH else 250)
        first = len(items) + 1
        items += [(t, base) for t in sub]
        groups.append(list(range(first, len(items) + 1)))
    tus = generate(chk, items)
    exe = chk.build(tus + [HARN + "/types_main.cpp"], san="none")
    if not exe:
        return chk.compile_failed()
    NT = len(items)
    lines, cands = [], []
    for g in groups:
        for f in g:
            lines.append(" ".join(map(str, [f] + g + [NT + 1])))
            cands.append(g + [NT + 1])
    lines.append(" ".join(map(str, [NT + 1] + groups[0] + [NT + 1])))
    cands.append(groups[0] + [NT + 1])

    def observe():
        rc, out, err = chk.run(exe, ["compat", str(SEED)], ("\n".join(lines) + "\n").encode())
        rows = [json.loads(l) for l in out.splitlines()]
        if rc != 0 or len(rows) != len(lines):
            return None, "driver ended with %s after %d rows: %s" % (rc, len(rows), err[:600])
        for r, c in zip(rows, cands):
            r["cand"] = c
        return rows, None
    rows, err = observe()
    if rows is None:
        rows, err = observe()
    if rows is None:
        chk.violation("crash", "MetaType::compatible crashed: " + err, dict(err=err))
        return chk.finish()
    types = [dict(t, valid=True) for t, b in items] + [dict(a=0, c=[False], r="n", n=0, valid=False)]
    r = chk.validate("TypesTrace", "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n", dict(TYPES=types, ROWS=rows), var="i")
    pairs = sum(len(c) for c in cands)
    chk.cov["states"] += r["distinct"]
    chk.cov["transitions"] += r["generated"]
    chk.cov["traces_validated_against_impl"] += len(rows)
    chk.cov["pairs_checked"] = pairs
    chk.cov["types"] = NT
    chk.cov["max_pointer_depth"] = max(t["a"] for t, b in items)
    for row in rows[:300:100]:
        chk.sample(dict(source=cpp(*items[row["f"] - 1]), compatible_with=[cpp(*items[k - 1]) for k in row["yes"][:5]]))
    for k in r["undef"]:
        chk.violation("undefined", "answers of compatible() are outside of the specification's domain", rows[k - 1])
    for bad in tagged(r["out"], "BAD")[:10]:
        f = cpp(*items[bad["f"] - 1]) if bad["f"] <= NT else "invalid"
        for t in bad["t"][:3]:
            tn = cpp(*items[t - 1]) if t <= NT else "invalid"
            chk.violation("%s->%s" % (f, tn), "MetaType::compatible(%s, %s) disagrees with the specification" % (f, tn),
                          dict(source=f, target=tn))
    return chk.finish()


def c08(pid):
    chk = Check(pid)
    space = types_from_tlc(chk)
    rng = chk.rng
    items, seen = [], set()

    def add(t, b):
        if b in NOVAL and t["a"] == 0:
            return
        if b in ("FnVI", "FnDD", "std::nullptr_t"):     # (const nullptr_t: see known findings)
            if t["c"][0]:
                return
        if b == "probe::Abs" and t["a"] == 0 and t["n"]:
            return
        if (key(t), b) in seen:
            return
        seen.add((key(t), b))
        items.append((t, b))
        add(decay(t), b)
    for b in BASES:
        for t in space if (b == "int") else rng.sample(space, 18 if not THOROUGH else 200):
            add(t, b)
        for t in space:
            if t["a"] <= 1 and t["r"] == "n" and t["n"] in (0, 2) and not any(t["c"][1:]):
                add(t, b)
    tus = generate(chk, items, 140)
    exe = chk.build(tus + [HARN + "/types_main.cpp"], san="none", extra=["-include", HARN + "/types_bases.h"])
    if not exe:
        return chk.compile_failed()
    allrows = []
    for order in (SEED, SEED + 1) if not THOROUGH else range(SEED, SEED + 8):
        for attempt in (1, 2):
            rc, out, err = chk.run(exe, ["describe", str(order)])
            if rc == 0:
                break
        if rc != 0:
            chk.violation("crash", "describing types crashed: rc=%s %s" % (rc, err[:500]), dict(err=err[:4000]))
            return chk.finish()
        rows = [json.loads(l) for l in out.splitlines()]
        n = 0
        for r in rows:
            if r["kind"] == "type":
                r["t"] = items[n][0]
                n += 1
        if n != len(items):
            raise ModelError("rows %d of %d" % (n, len(items)))
        allrows += rows
    r = chk.validate("Describe", "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n", dict(ROWS=allrows), var="i")
    chk.cov["states"] += r["distinct"]
    chk.cov["transitions"] += r["generated"]
    chk.cov["traces_validated_against_impl"] += len(allrows)
    chk.cov["types"] = len(items)
    chk.sample(dict(type=cpp(*items[5]), row=allrows[5]))
    for k in r["undef"]:
        chk.violation("undefined", "description of a type is outside of the specification's domain", allrows[k - 1])
    for bad in tagged(r["out"], "BAD")[:20]:
        row = allrows[bad["i"] - 1]
        what = cpp(*items[row["self"] - 1]) if row["kind"] == "type" else row.get("what") or str(row.get("bits"))
        chk.violation(("%s: %s" % (what, ",".join(sorted(bad["wrong"])))).replace(" ", "_"),
                      "MetaType of %s: wrong %s" % (what, ", ".join(sorted(bad["wrong"]))), row)
    import check_identity
    check_identity.run(chk)
    return chk.finish()
