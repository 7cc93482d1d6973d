"""C++ spelling of the type structures enumerated by TypesMC.tla."""
import itertools


def cpp(t, base):
    """expression for a C++ type: built with alias templates so that any nesting is spelled correctly"""
    s = base + (" const" if t["c"][0] else "")
    for lvl in range(1, t["a"] + 1):
        s = "P<%s>%s" % (s, " const" if t["c"][lvl] else "")
    if t["n"]:
        s = "A<%s, %d>" % (s, t["n"])
    if t["r"] == "l":
        s = "L<%s>" % s
    elif t["r"] == "r":
        s = "R<%s>" % s
    return s


def decay(t):
    a = t["a"] + (1 if t["n"] else 0)
    return dict(a=a, c=[False] * (a + 1), r="n", n=0)


def key(t):
    return (t["a"], tuple(t["c"]), t["r"], t["n"])


PRE = """#include "types_common.h"
template<typename T> using P = T*;
template<typename T, int N> using A = T[N];
template<typename T> using L = T&;
template<typename T> using R = T&&;
"""


def generate(chk, items, per_tu=90):
    """items: list of (struct, base); writes TUs, returns their paths. Index of an entry is its position + 1."""
    pos = {(key(t), b): i + 1 for i, (t, b) in enumerate(items)}
    tus, fills = [], []
    for k in range(0, len(items), per_tu):
        part = items[k:k + per_tu]
        n = k // per_tu
        src = [PRE, "void fill%d() {" % n]
        for t, b in part:
            c = cpp(t, b)
            src.append("  entries.push_back({&Reg<%s, %s>::get, &Reg<%s, %s>::name, &Reg<%s, %s>::facts, Reg<%s, %s>::size(), %d});"
                       % (c, b, c, b, c, b, c, b, pos.get((key(decay(t)), b), -1)))
        src.append("}")
        p = "%s/types%d.cpp" % (chk.tmp, n)
        open(p, "w").write("\n".join(src))
        tus.append(p)
        fills.append(n)
    p = chk.tmp + "/types_fill.cpp"
    open(p, "w").write("".join("void fill%d();\n" % n for n in fills)
                       + "void fill_all() {%s}\n" % "".join("fill%d();" % n for n in fills))
    tus.append(p)
    return tus
