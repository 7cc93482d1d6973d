// C19: the library used by constructors and destructors of static objects. Scripts come from the file named by LT_SCRIPT.
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <new>
#include <string>
#include <utility>
#include <vector>
#include <rtti/metadefine.h>
namespace lt {
extern int live;
struct Core {
    int t; unsigned magic = 0x11fe11fe;
    explicit Core(int x): t(x) { ++live; }
    Core(Core const &o): t(o.get()) { ++live; }
    Core(Core &&o) noexcept: t(o.get()) { o.t = -1; }                  // values are counted, not objects
    Core &operator=(Core const &o) { if (t < 0) ++live; t = o.get(); return *this; }
    ~Core() { if (magic != 0x11fe11fe) std::abort(); magic = 0; if (t >= 0) --live; }
    int get() const { if (magic != 0x11fe11fe || t < 0) std::abort(); return t; }
};
struct S1 { Core c; explicit S1(int t): c(t) {} };
struct B2 { Core c; long pad[4] = {}; explicit B2(int t): c(t) {} virtual ~B2() = default; int who() const { return c.get(); } DECLARE_CLASSINFO };
struct Other { long x = 5; virtual ~Other() = default; };
struct D3: Other, B2 { explicit D3(int t): B2(t) {} DECLARE_CLASSINFO };
struct L5 { Core c; explicit L5(int t): c(t) {} };

struct Step { std::string op; int s = 0, k = 0, t = 0; };
using Steps = std::vector<Step>;
Steps steps(char const *who, int i);       // of the script
void run(char const *who, int i);          // performs and reports them
void event(char const *op, int s, int k, int t, std::string const &r, int v);
extern bool space, mayspace;               // the global namespace was used; it may be used
struct Object { int i; bool space_; explicit Object(int i): i(i) { run("c", i); event("done", i, 0, 0, "ok", 0); space_ = space; }
    ~Object() { event("exit", i, 0, 0, "ok", 0); mayspace = space_; run("d", i); } };
inline void block(int i) { event("block", i, 0, 0, "ok", 0); run("b", i); }
}
