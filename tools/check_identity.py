"""C08, second half: identifiers across modules of a process and lookups by name (spec/Identity.tla)."""
import glob, json, os, subprocess
from vlib import *


def edges_from(out):
    return [(json.dumps(e["s"]), e["o"], json.dumps(e["t"])) for e in tagged(out, "EDGE")]


def run(chk):
    r = chk.design("IdentityMC", "SPECIFICATION Spec\nINVARIANT Inv\nPROPERTY Stable\nVIEW View\nACTION_CONSTRAINT Emit\n",
                   "Identity: one to one, stable", workers=1)
    edges = edges_from(r["out"])
    # answers are the implementation's choice: cover every (set of known types, question)
    uniq, seen = [], set()
    for s, o, t in edges:
        k = (s, json.dumps(o, sort_keys=True), t)
        if k not in seen:
            seen.add(k)
            uniq.append((s, o, t))
    scripts, left = edge_cover(uniq, json.dumps([]), chk.rng, max_len=40)
    scripts = [[(0 if o["op"] == "mention" else 1, o["t"] - 1, o["d"], chk.rng.randrange(3)) for o in sc] for sc in scripts]

    objs, inc = [], ["-I" + HARN + "/include", "-I" + HARN, "-I" + REPO + "/include", "-I" + REPO + "/src/private", "-I" + REPO + "/src"]
    base = [CXX, "-std=c++17", "-O0", "-DNDEBUG", "-w", "-fPIC"] + inc
    lib = chk.tmp + "/librtti.so"
    srcs = sorted(glob.glob(REPO + "/src/**/*.cpp", recursive=True))
    jobs = [base + ["-fno-rtti", "-Drtti_EXPORTS", "-fvisibility=hidden", "-shared", "-o", lib] + srcs + ["-lpthread"]]
    for p in ("p1", "p2"):
        jobs.append(base + ["-fvisibility=hidden", "-shared", "-o", chk.tmp + "/%s.so" % p, HARN + "/identity_plugin.cpp"])
    exe = chk.tmp + "/identity"

    def sh(c):
        for attempt in (1, 2):
            r = subprocess.run(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
            if not r.returncode:
                break
        return r.returncode, r.stdout
    with concurrent.futures.ThreadPoolExecutor(4) as ex:
        res = list(ex.map(sh, jobs))
    res.append(sh(base + ["-fvisibility=hidden", HARN + "/identity_main.cpp", "-o", exe, lib, "-Wl,-rpath," + chk.tmp, "-ldl", "-lpthread"]))
    for rc, out in res:
        if rc:
            chk.violation("build", "shared library build of the public API fails: " + out[-1500:], dict(error=out[-4000:]))
            return
    rc, out, err = chk.run(exe, ["bases"])
    info = [l.split("\t") for l in out.splitlines()]
    n = len(info)
    for _ in range(60 if not THOROUGH else 1500):
        # permissive names of relatives are rare: mostly mentions and lookups of few types
        k = chk.rng.choice((3, 8, n))
        sub = chk.rng.sample(range(n), k)
        scripts.append([(chk.rng.randrange(2), chk.rng.choice(sub), chk.rng.randrange(3), chk.rng.randrange(3)) for _ in range(chk.rng.choice((30, 200)))])
    txt = "---\n".join("".join("%d %d %d %d\n" % o for o in sc) for sc in scripts)

    def observe():
        rc, out, err = chk.run(exe, [chk.tmp + "/p1.so", chk.tmp + "/p2.so"], txt.encode())
        rows = [json.loads(l) for l in out.splitlines()]
        if rc or len(rows) != len(scripts):
            raise ModelError("identity driver: %s %s" % (rc, err[:500]))
        r = chk.validate("IdentityTrace", "SPECIFICATION Spec\nINVARIANT Inv\n",
                    dict(SCRIPTS=[x if "ev" in x else dict(ev=[]) for x in rows], BASES=[int(b) for b, _ in info]))
        bad = {b["s"] - 1: b["l"] - 1 for b in tagged(r["out"], "BAD")}
        bad.update({s - 1: None for s in r["undef"]})
        for i, x in enumerate(rows):
            if "crash" in x:
                bad[i] = None
        return r, rows, bad
    r, rows, bad = observe()
    if bad:
        r, rows, bad2 = observe()
        bad = {k: v for k, v in bad2.items() if k in bad}
    chk.cov["states"] += r["distinct"]
    chk.cov["transitions"] += r["generated"]
    chk.cov["traces_validated_against_impl"] += len(rows)
    chk.cov["identity_operations"] = sum(len(s) for s in scripts)
    for k, l in list(bad.items())[:5]:
        if l is None:
            chk.violation("identity crash", "crash while asking for types from several modules", dict(script=scripts[k]))
        else:
            op = scripts[k][l]
            chk.violation("identity", "%s of %s in module %d answered a wrong identifier after %d questions"
                          % ("mention" if op[0] == 0 else "lookup by name", info[op[1]][1], op[2], l),
                          dict(script=scripts[k][:l + 1], answers=rows[k]["ev"][:l + 1]))
