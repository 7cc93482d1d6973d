// Variants of many contents compared with each other. argv: seed, number of random contents
#include <rtti/variant.h>
#include <cstdio>
#include <cstdlib>
#include <deque>
#include <functional>
#include <map>
#include <memory>
#include <random>
#include <sstream>
#include <string>
#include <vector>
using rtti::variant;
struct Entry { variant v; std::string c, label; std::function<std::string(variant const &)> cmp; };
static std::deque<Entry> es;
static std::map<std::string, int> types, values;
static int number(std::map<std::string, int> &m, std::string const &s) { return m.emplace(s, int(m.size()) + 1).first->second; }
static std::string content(std::string const &type, int n, bool cmp, std::string const &value) {
    return "{\"e\":false,\"d\":" + std::to_string(number(types, type)) + ",\"n\":" + std::to_string(n) + ",\"cmp\":" + (cmp ? "true" : "false")
        + ",\"x\":" + std::to_string(number(values, value)) + "}";
}
template<typename F> std::string tri(F &&f) { try { return f() ? "true" : "false"; } catch (rtti::runtime_error const &) { return "error"; } catch (...) { return "other"; } }
template<typename V> void put(V &&v, std::string const &type, int n, bool cmp, std::string const &value, std::string const &form, std::function<std::string(variant const &)> c = {}) {
    es.push_back({variant{std::forward<V>(v)}, content(type, n, cmp, value), type + (n ? "[" + std::to_string(n) + "]" : "") + " = " + value + " by " + form, std::move(c)});
}
// all the ways to hold a value
template<typename T> void all(std::string const &type, T x, std::string const &value, bool cmp = true, int ways = 31) {
    auto p = new T(x); auto q = new T const(x);
    auto c = [p](variant const &v) { return tri([&] { return v == *p; }); };
    if (ways & 1) put(x, type, 0, cmp, value, "value", c);
    if (ways & 2) put(T(x), type, 0, cmp, value, "moved value");
    if (ways & 4) put(std::ref(*p), type, 0, cmp, value, "reference", c);
    if (ways & 8) put(std::cref(*p), type, 0, cmp, value, "const reference");
    if (ways & 16) put(std::ref(*q), type, 0, cmp, value, "reference to const");
    if (ways & 32) put(*q, type, 0, cmp, value, "copy of const");
}
template<typename T, std::size_t N> void arr(std::string const &type, std::vector<T> const &x, std::string const &value, bool cmp = true, int ways = 15) {
    struct Box { T a[N]; }; auto p = new Box; for (std::size_t i = 0; i < N; ++i) p->a[i] = x[i];
    auto c = [p](variant const &v) { return tri([&] { return v == p->a; }); };
    if (ways & 1) put(p->a, type, N, cmp, value, "value", c);
    if (ways & 2) put(std::ref(p->a), type, N, cmp, value, "reference");
    if (ways & 4) put(std::cref(p->a), type, N, cmp, value, "const reference", c);
    if (ways & 8) { auto q = new Box; for (std::size_t i = 0; i < N; ++i) q->a[i] = x[i]; put(std::move(q->a), type, N, cmp, value, "moved value"); }
}
struct Eq { int k; std::string s; bool operator==(Eq const &o) const { return k == o.k && s == o.s; } };
struct Loose { int k; int ignored; bool operator==(Loose const &o) const { return k == o.k; } };      // equal with different bytes
namespace std { template<> struct hash<Eq> { size_t operator()(Eq const &e) const { return e.k; } }; template<> struct hash<Loose> { size_t operator()(Loose const &e) const { return e.k; } }; }
struct NoHash { int k; char pad[3]; bool operator==(NoHash const &o) const { return k == o.k; } };
struct NoEq { int k; };
struct BigNoEq { int k; char pad[50]; };
struct alignas(64) Wide { int k; bool operator==(Wide const &o) const { return k == o.k; } };
struct Base { virtual ~Base() = default; int k = 1; bool operator==(Base const &o) const { return k == o.k; } };
struct Other { virtual ~Other() = default; int z = 1; };
struct Derived: Other, Base { bool operator==(Derived const &o) const { return k == o.k; } };
enum En { a0, a1 }; enum class Ec: char { a0, a1 };
static int f1(int) { return 0; } static int f2(int) { return 1; }
struct Mem { int x, y; void f() {} void g() {} };

template<typename T, std::size_t N> void some(std::string const &type, std::mt19937 &r, T (*make)(int)) {
    std::vector<T> v; std::string s = type == "int*" ? "x" : "";
    for (std::size_t i = 0; i < N; ++i) { int t = int(r() % 2); v.push_back(make(t)); s += std::to_string(t); }
    arr<T, N>(type, v, type + ":" + s, true, 1 << r() % 4);
}
template<typename T> void any(std::string const &type, std::mt19937 &r, T (*make)(int)) {
    switch (r() % 5) {
    case 0: { int t = int(r() % 2); all<T>(type, make(t), type + ":" + (type == "string" ? t ? "a" : "" : type == "double" ? t ? "1.5" : "0" : (type == "int*" ? "x" : "") + std::to_string(t)), true, 1 << r() % 6); break; }
    case 1: some<T, 1>(type, r, make); break;
    case 2: some<T, 2>(type, r, make); break;
    case 3: some<T, 3>(type, r, make); break;
    case 4: some<T, 4>(type, r, make); break;
    }
}
int main(int argc, char **argv) {
    std::mt19937 r(unsigned(std::atoi(argv[1])));
    for (int k = 0; k < 2; ++k) es.push_back({variant{}, "{\"e\":true,\"d\":0,\"n\":0,\"cmp\":true,\"x\":0}", "empty", {}});
    all<int>("int", 0, "int:0"); all<int>("int", 1, "int:1"); all<int>("int", -1, "int:-1");
    all<unsigned>("unsigned", 1, "unsigned:1"); all<long>("long", 1, "long:1"); all<char>("char", 1, "char:1"); all<bool>("bool", true, "bool:1"); all<bool>("bool", false, "bool:0");
    all<double>("double", 0.0, "double:0"); all<double>("double", -0.0, "double:0"); all<double>("double", 1.5, "double:1.5"); all<float>("float", 1.5f, "float:1.5");
    all<long double>("long double", 1.5L, "long double:1.5");
    all<std::string>("string", "", "string:"); all<std::string>("string", "x", "string:x"); all<std::string>("string", "a string which needs an allocation", "string:a");
    { std::string s = "a string which needs an allocation"; s.reserve(500); all<std::string>("string", s, "string:a"); }
    all<std::vector<int>>("vector", {}, "vector:"); all<std::vector<int>>("vector", {1, 2}, "vector:1,2"); { std::vector<int> v{1, 2}; v.reserve(100); all<std::vector<int>>("vector", v, "vector:1,2"); }
    all<Eq>("Eq", {1, "x"}, "Eq:1x"); all<Eq>("Eq", {1, "y"}, "Eq:1y"); all<Eq>("Eq", {2, "x"}, "Eq:2x");
    all<Loose>("Loose", {1, 5}, "Loose:1"); all<Loose>("Loose", {1, 6}, "Loose:1"); all<Loose>("Loose", {2, 6}, "Loose:2");
    { NoHash n; std::memset(&n, 0x55, sizeof n); n.k = 1; all<NoHash>("NoHash", n, "NoHash:1"); std::memset(&n, 0xaa, sizeof n); n.k = 1; all<NoHash>("NoHash", n, "NoHash:1"); n.k = 2; all<NoHash>("NoHash", n, "NoHash:2"); }
    all<NoEq>("NoEq", {1}, "NoEq:1", false); all<NoEq>("NoEq", {2}, "NoEq:2", false); all<BigNoEq>("BigNoEq", {1}, "BigNoEq:1", false); all<BigNoEq>("BigNoEq", {2}, "BigNoEq:2", false);
    all<Wide>("Wide", {1}, "Wide:1"); all<Wide>("Wide", {2}, "Wide:2");
    all<En>("En", a0, "En:0"); all<En>("En", a1, "En:1"); all<Ec>("Ec", Ec::a0, "Ec:0"); all<Ec>("Ec", Ec::a1, "Ec:1");
    static int x[2] = {7, 7}; static int const y = 7;
    all<int *>("int*", &x[0], "int*:x0"); all<int *>("int*", &x[1], "int*:x1"); all<int const *>("int*", &x[0], "int*:x0"); all<int const *>("int*", &y, "int*:y"); all<int *>("int*", nullptr, "int*:0");
    all<void *>("void*", &x[0], "void*:x0"); all<void const *>("void*", &x[0], "void*:x0"); static int *px = &x[0]; all<int **>("int**", &px, "int**:px"); all<int *const *>("int**", &px, "int**:px");
    all<char const *>("char*", "abc", "char*:abc"); { static char const abc[] = "abc\0"; all<char const *>("char*", abc, "char*:other abc"); }
    static Derived d1, d2;
    all<Derived>("Derived", d1, "Derived:1"); all<Base>("Base", d1, "Base:1"); { Base b; b.k = 2; all<Base>("Base", b, "Base:2"); }
    all<Derived *>("Derived*", &d1, "Derived*:d1"); all<Derived *>("Derived*", &d2, "Derived*:d2"); all<Base *>("Base*", &d1, "Base*:d1"); all<Base *>("Base*", &d2, "Base*:d2"); all<Derived const *>("Derived*", &d1, "Derived*:d1");
    all<int (*)(int)>("function", &f1, "f1"); all<int (*)(int)>("function", &f2, "f2");
    all<int Mem::*>("member", &Mem::x, "m:x"); all<int Mem::*>("member", &Mem::y, "m:y"); all<void (Mem::*)()>("memfn", &Mem::f, "m:f"); all<void (Mem::*)()>("memfn", &Mem::g, "m:g");
    { auto p = std::make_shared<int>(1); all<std::shared_ptr<int>>("shared", p, "shared:p"); all<std::shared_ptr<int>>("shared", std::make_shared<int>(1), "shared:q"); all<std::shared_ptr<int>>("shared", nullptr, "shared:0"); }
    put(std::make_unique<int>(1), "unique", 0, true, "unique:a", "moved value"); put(std::unique_ptr<int>{}, "unique", 0, true, "unique:0", "moved value"); put(std::unique_ptr<int>{}, "unique", 0, true, "unique:0", "moved value");
    all<std::pair<int, std::string>>("pair", {1, "a"}, "pair:1a"); all<std::pair<int, std::string>>("pair", {1, "b"}, "pair:1b");
    // arrays
    arr<int, 2>("int", {0, 1}, "int:01"); arr<int, 2>("int", {0, 0}, "int:00"); arr<int, 3>("int", {0, 1, 2}, "int:012"); arr<int, 3>("int", {0, 1, 0}, "int:010"); arr<int, 1>("int", {0}, "int:0");
    arr<unsigned, 2>("unsigned", {0, 1}, "unsigned:01"); arr<short, 4>("short", {0, 0, 1, 0}, "short:0010");
    arr<std::string, 2>("string", {"", "x"}, "string:-x"); arr<std::string, 2>("string", {"", "y"}, "string:-y");
    arr<NoEq, 2>("NoEq", {{1}, {2}}, "NoEq:12", false); arr<NoEq, 3>("NoEq", {{1}, {2}, {3}}, "NoEq:123", false); arr<NoEq, 2>("NoEq", {{1}, {3}}, "NoEq:13", false);
    arr<double, 2>("double", {0.0, 1.0}, "double:0,1"); arr<double, 2>("double", {-0.0, 1.0}, "double:0,1"); arr<Loose, 2>("Loose", {{1, 1}, {2, 2}}, "Loose:12"); arr<Loose, 2>("Loose", {{1, 3}, {2, 4}}, "Loose:12");
    arr<int *, 2>("int*", {&x[0], &x[1]}, "int*:x01"); arr<int *, 2>("int*", {&x[0], &x[0]}, "int*:x00"); arr<int *, 1>("int*", {&x[0]}, "int*:x0"); arr<Wide, 2>("Wide", {{1}, {2}}, "Wide:12"); arr<bool, 3>("bool", {true, false, true}, "bool:101");
    { static int z[2] = {0, 1}; all<int *>("int*", &z[0], "int*:z0"); }    // pointer to the first element isn't the array
    int n = std::atoi(argv[2]);
    for (int i = 0; i < n; ++i)
        switch (r() % 9) {
        case 0: any<int>("int", r, [](int t) { return t; }); break;
        case 1: any<std::string>("string", r, [](int t) { return std::string(t ? "a string which needs an allocation" : ""); }); break;
        case 2: any<double>("double", r, [](int t) { return t ? 1.5 : -0.0; }); break;
        case 3: any<Eq>("Eq", r, [](int t) { return Eq{t, "e"}; }); break;
        case 4: any<Loose>("Loose", r, [](int t) { return Loose{t, std::rand()}; }); break;
        case 5: any<NoHash>("NoHash", r, [](int t) { NoHash h; std::memset(&h, std::rand(), sizeof h); h.k = t; return h; }); break;
        case 6: any<char>("char", r, [](int t) { return char(t); }); break;
        case 7: any<int const *>("int*", r, [](int t) -> int const * { return &x[t]; }); break;
        case 8: any<Wide>("Wide", r, [](int t) { return Wide{t}; }); break;
        }
    std::map<std::size_t, int> hashes;
    auto hash = [&](variant const &v) { return hashes.emplace(std::hash<variant>{}(v), int(hashes.size())).first->second; };
    for (auto &e: es) {
        variant c; try { c = e.v; } catch (rtti::runtime_error const &) { c = std::move(e.v); e.v = std::move(c); }
        std::string o = "{\"c\":" + e.c + ",\"label\":\"" + e.label + "\",\"h\":" + std::to_string(hash(e.v)) + ",\"copyHash\":" + std::to_string(hash(c ? c : e.v)) + ",\"eq\":[", ne, val;
        for (auto &d: es) {
            bool f = &d == &es.front();
            o += std::string(f ? "\"" : ",\"") + tri([&] { return e.v == d.v; }) + "\"";
            ne += std::string(f ? "\"" : ",\"") + tri([&] { return e.v != d.v; }) + "\"";
            val += std::string(f ? "\"" : ",\"") + (d.cmp ? d.cmp(e.v) : "") + "\"";
        }
        std::puts((o + "],\"ne\":[" + ne + "],\"val\":[" + val + "]}").c_str());
    }
}
