// Variants and constructed objects under scripts of operations; prints what is observed after every step.
// stdin: scripts separated by "---": "op a b k t w f". argv[1]: number of variants, argv[2]: pool size
#include <rtti/variant.h>
#include <array>
#include <cstdio>
#include <cstdlib>
#include <iostream>
#include <memory>
#include <new>
#include <sstream>
#include <string>
#include <sys/wait.h>
#include <unistd.h>
#include <vector>

// ------------------------------------------------------------------ memory accounting
static long outstanding = 0;
static void *raw(std::size_t n, std::size_t a) {
    void *p = a <= 16 ? std::malloc(n ? n : 1) : std::aligned_alloc(a, (n + a - 1) / a * a);
    if (!p) std::abort();
    ++outstanding;
    return p;
}
void *operator new(std::size_t n) { return raw(n, 16); }
void *operator new[](std::size_t n) { return raw(n, 16); }
void *operator new(std::size_t n, std::align_val_t a) { return raw(n, std::size_t(a)); }
void *operator new[](std::size_t n, std::align_val_t a) { return raw(n, std::size_t(a)); }
static void unraw(void *p) noexcept { if (p) { --outstanding; std::free(p); } }
void operator delete(void *p) noexcept { unraw(p); }
void operator delete[](void *p) noexcept { unraw(p); }
void operator delete(void *p, std::size_t) noexcept { unraw(p); }
void operator delete[](void *p, std::size_t) noexcept { unraw(p); }
void operator delete(void *p, std::align_val_t) noexcept { unraw(p); }
void operator delete[](void *p, std::align_val_t) noexcept { unraw(p); }
void operator delete(void *p, std::size_t, std::align_val_t) noexcept { unraw(p); }
void operator delete[](void *p, std::size_t, std::align_val_t) noexcept { unraw(p); }

// ------------------------------------------------------------------ tracked values
struct Injected {};
static long live = 0;
static int fault = 0;              // countdown to a throwing constructor
static char errs[8][64]; static int nerr = 0;
static void error(char const *e) {
    for (int i = 0; i < nerr; ++i) if (!std::strcmp(errs[i], e)) return;
    if (nerr < 8) std::strncpy(errs[nerr++], e, 63);
}
template<bool Throws> static void point() { if constexpr(Throws) if (fault > 0 && --fault == 0) throw Injected{}; }
constexpr unsigned ALIVE = 0xA11CE5u, DEAD = 0xDEADu;
struct Core {
    int tok; unsigned magic; Core *self;
    void birth(int t) { tok = t; magic = ALIVE; self = this; if (t) ++live; }
    void check(char const *e) const { if (magic != ALIVE || self != this) error(e); }
    int take() { check("moved from an object that is not alive"); int t = tok; if (t) --live; tok = 0; return t; }
    int look() const { check("read of an object that is not alive"); return tok; }
    void death() { check("destruction of an object that is not alive"); if (tok) --live; magic = DEAD; self = nullptr; tok = 0; }
};
enum { COPY = 1, MOVE = 2, DFLT = 4, THROW = 8 };
template<int Id, int Flags, std::size_t Extra, std::size_t Al, bool C = (Flags & COPY), bool M = (Flags & MOVE)> struct Tr;
#define BODY(NM) \
    static constexpr bool throws = Flags & THROW; \
    Core core; char extra[Extra]; \
    void fill(int t) { if (reinterpret_cast<std::uintptr_t>(this) % Al) error("misaligned object"); core.birth(t); for (auto &x: extra) x = char(t); } \
    int get() const { int t = core.look(); if (t) for (auto x: extra) if (x != char(t)) { error("content of object is damaged"); break; } return t; } \
    explicit NM(int t) { fill(t); } \
    ~NM() { core.death(); }
#define CPY(NM) NM(NM const &o) noexcept(!throws) { point<throws>(); fill(o.get()); } \
    NM &operator=(NM const &o) { int t = o.get(); core.take(); core.tok = t; if (t) ++live; for (auto &x: extra) x = char(t); return *this; }
#define MOV(NM) NM(NM &&o) noexcept(!throws) { point<throws>(); o.get(); fill(o.core.take()); } \
    NM &operator=(NM &&o) noexcept { if (this != &o) { int t = o.core.take(); core.take(); core.tok = t; if (t) ++live; for (auto &x: extra) x = char(t); } return *this; }
// (zero length array is a GNU extension)
template<int Id, int Flags, std::size_t Extra, std::size_t Al> struct alignas(Al) Tr<Id, Flags, Extra, Al, true, true> { BODY(Tr) CPY(Tr) MOV(Tr)
    Tr() noexcept(!throws) { point<throws>(); fill(99); } };
template<int Id, int Flags, std::size_t Extra, std::size_t Al> struct alignas(Al) Tr<Id, Flags, Extra, Al, true, false> { BODY(Tr) CPY(Tr)
    Tr() noexcept(!throws) { point<throws>(); fill(99); } };
template<int Id, int Flags, std::size_t Extra, std::size_t Al> struct alignas(Al) Tr<Id, Flags, Extra, Al, false, true> { BODY(Tr) MOV(Tr)
    Tr() noexcept(!throws) { point<throws>(); fill(99); } Tr(Tr const&) = delete; Tr &operator=(Tr const&) = delete; };
using S = Tr<1, COPY | MOVE, 0, 8>;             // fits into variant
using L = Tr<2, COPY | MOVE | THROW, 24, 8>;    // doesn't
using O = Tr<3, COPY | MOVE | THROW, 0, 64>;    // over-aligned
using CL = Tr<4, COPY | THROW, 24, 8>;          // copy only
using MS = Tr<5, MOVE, 0, 8>;                   // move only, small
using ML = Tr<6, MOVE | THROW, 24, 8>;          // move only, large
struct ND: Tr<9, COPY | MOVE | THROW, 8, 8> { using B = Tr; using B::B; ND() = delete; ND(ND const&) = default; ND(ND&&) = default; ND &operator=(ND const&) = default; ND &operator=(ND&&) = default; explicit ND(int t): B(t) {} };
using CS = Tr<17, COPY, 0, 8>;                  // copy only, small
using SO = Tr<18, COPY | MOVE, 0, 16>;          // small but over-aligned for the storage
enum class En: short { a };
struct Pod { int t; int pad[20]; };

template<typename T> struct K {     // tracked
    static T make(int t) { return T(t); }
    static int get(T const &x) { return x.get(); }
};
template<> struct K<std::string> { static std::string make(int t) { return t ? "a rather long string that is on the heap " + std::to_string(t) : ""; }
    static int get(std::string const &s) { if (s.empty()) return 0; int t = std::atoi(s.c_str() + s.rfind(' ')); return s == make(t) ? t : -1; } };
template<> struct K<int> { static int make(int t) { return t; } static int get(int t) { return t; } };
template<> struct K<double> { static double make(int t) { return t + 0.5; } static int get(double t) { return int(t); } };
template<> struct K<En> { static En make(int t) { return En(t); } static int get(En t) { return int(t); } };
template<> struct K<Pod> { static Pod make(int t) { Pod p{}; p.t = t; p.pad[19] = ~t; return p; } static int get(Pod const &p) { return p.pad[19] == ~p.t ? p.t : -1; } };
template<> struct K<std::shared_ptr<int>> { static std::shared_ptr<int> make(int t) { return t ? std::make_shared<int>(t) : nullptr; } static int get(std::shared_ptr<int> const &p) { return p ? *p : 0; } };
template<> struct K<std::unique_ptr<int>> { static std::unique_ptr<int> make(int t) { return t ? std::make_unique<int>(t) : nullptr; } static int get(std::unique_ptr<int> const &p) { return p ? *p : 0; } };
template<> struct K<std::vector<int>> { static std::vector<int> make(int t) { return t ? std::vector<int>(size_t(t), t) : std::vector<int>{}; } static int get(std::vector<int> const &p) { return p.empty() ? 0 : p.size() == size_t(p[0]) ? p[0] : -1; } };
static long ptrs[256];
template<> struct K<long const*> { static long const *make(int t) { return &ptrs[t]; } static int get(long const *p) { return int(p - ptrs); } };

using rtti::variant; using rtti::MetaType; using rtti::metaTypeId;
static std::vector<std::unique_ptr<variant>> vs;
static std::vector<void*> pool; static std::vector<int> poolKind;
struct Ops { int a, b, k, t, w, f; std::string op; };
struct Kind {
    virtual ~Kind() = default;
    virtual void reset() = 0; virtual void drop() = 0;
    virtual int ext() = 0;
    virtual bool seen(variant const &, int k, std::string &) = 0;
    virtual void mk(Ops const &) = 0; virtual void mkc(Ops const &) = 0; virtual void in(Ops const &) = 0; virtual void inm(Ops const &) = 0;
    virtual void rf(Ops const &) = 0; virtual void crf(Ops const &) = 0; virtual void set(Ops const &) = 0; virtual void ss(Ops const &) = 0;
    virtual void sm(Ops const &) = 0; virtual void rr(Ops const &) = 0; virtual void to(Ops const &) = 0; virtual void x(Ops const &) = 0;
    virtual bool cv(Ops const &) = 0; virtual void *mc(Ops const &) = 0; virtual void md(void *) = 0; virtual int tok(void *) = 0;
};
static int armed; static void arm() { fault = armed; }
template<typename F> static void put(int a, int w, F &&f) {   // assign, or construct a new variant and put it into place
    arm();
    if (w == 0) { f(*vs[a]); }
    else f(vs[a]);
    fault = 0;
}
// element-wise helpers so that arrays and values look alike
template<typename T> struct Obj { T x; template<std::size_t ...I> Obj(int t, std::index_sequence<I...>): x(K<T>::make(t)) {} Obj(int t): x(K<T>::make(t)) {}
    static int get(T const &x) { return K<T>::get(x); } static void assign(T &d, int t) { d = K<T>::make(t); } static void take(T &d, T &s) { d = std::move(s); } };
template<typename T, std::size_t N> struct Obj<T[N]> { T x[N];
    Obj(int t): Obj(t, std::make_index_sequence<N>{}) {}
    template<std::size_t ...I> Obj(int t, std::index_sequence<I...>): x{K<T>::make((void(I), t))...} {}
    static int get(T const (&x)[N]) { int t = K<T>::get(x[0]); for (auto &e: x) if (K<T>::get(e) != t) t = -1; return t; }
    static void assign(T (&d)[N], int t) { for (auto &e: d) e = K<T>::make(t); }
    static void take(T (&d)[N], T (&s)[N]) { for (std::size_t i = 0; i < N; ++i) d[i] = std::move(s[i]); } };
template<typename T> struct KindOf: Kind {
    using E = std::remove_all_extents_t<T>;
    static constexpr bool copy = std::is_copy_constructible_v<E>, arr = std::is_array_v<T>;
    std::unique_ptr<Obj<T>> e;
    void reset() override { e = std::make_unique<Obj<T>>(1); }
    void drop() override { e.reset(); }
    int ext() override { return Obj<T>::get(e->x); }
    template<typename V> static void store(int a, int w, V &&v) {
        arm();
        if (w == 0) *vs[a] = std::forward<V>(v); else { std::unique_ptr<variant> n{new variant(std::forward<V>(v))}; vs[a] = std::move(n); }
        fault = 0;
    }
    bool seen(variant const &v, int k, std::string &o) override {
        bool c = v.typeId() == metaTypeId<T const>();
        if (!c && v.typeId() != metaTypeId<T>()) return false;
        T const *p = nullptr;
        try { p = &v.cref<T>(); } catch (...) { o = "[\"unreadable\",0,0]"; return true; }
        bool r = static_cast<void const*>(p) == static_cast<void const*>(&e->x);
        if (!v.is<T>() && !std::is_array_v<T>) { o = "[\"unreadable\",0,0]"; return true; }
        o = std::string("[\"") + (r ? c ? "cref" : "ref" : c ? "constant" : "val") + "\"," + std::to_string(k) + "," + std::to_string(Obj<T>::get(*p)) + "]";
        return true;
    }
    void mk(Ops const &o) override { Obj<T> x(o.t); store(o.a, o.w, std::move(x.x)); }
    void mkc(Ops const &o) override { if constexpr(copy) { Obj<T> const x(o.t); if (o.f % 2 || o.k % 2) store(o.a, o.w, x.x); else store(o.a, o.w, std::move(x.x)); } }
    void in(Ops const &o) override { if constexpr(copy) store(o.a, o.w, e->x); }
    void inm(Ops const &o) override { store(o.a, o.w, std::move(e->x)); }
    void rf(Ops const &o) override { store(o.a, o.w, std::ref(e->x)); }
    void crf(Ops const &o) override { store(o.a, o.w, std::cref(e->x)); }
    void set(Ops const &o) override { Obj<T>::assign(vs[o.a]->ref<T>(), o.t); }
    void ss(Ops const &o) override { if constexpr(copy) { auto &v = *vs[o.a]; auto const &r = v.cref<T>(); arm(); v = r; fault = 0; } }
    void sm(Ops const &o) override { auto &v = *vs[o.a]; auto &r = v.ref<T>(); arm(); v = std::move(r); fault = 0; }
    void rr(Ops const &o) override { T &&r = std::move(*vs[o.a]).rref<T>(); Obj<T>::take(e->x, r); }
    void to(Ops const &o) override { if constexpr(!arr) { arm(); *vs[o.b] = vs[o.a]->to<T>(); fault = 0; } }
    void x(Ops const &o) override { Obj<T>::assign(e->x, o.t); }
    bool cv(Ops const &o) override { if constexpr(!arr) { arm(); if (o.w) { bool r = vs[o.a]->tryConvert<T>(); fault = 0; return r; } vs[o.a]->convert<T>(); fault = 0; } return true; }
    void *mc(Ops const &o) override { auto t = MetaType{metaTypeId<T>()}; arm(); void *p = o.w == 0 ? t.construct() : o.w == 1 ? t.construct(&e->x) : t.construct(&e->x, true); fault = 0; return p; }
    void md(void *p) override { MetaType{metaTypeId<T>()}.destruct(p); }
    int tok(void *p) override { return Obj<T>::get(*static_cast<T*>(p)); }
};
static std::vector<std::unique_ptr<Kind>> kinds;
template<typename T> void add() { kinds.push_back(std::make_unique<KindOf<T>>()); }

static Kind &held(int a) {
    std::string o;
    for (std::size_t k = 0; k < kinds.size(); ++k) if (kinds[k]->seen(*vs[a], int(k) + 1, o)) return *kinds[k];
    throw std::logic_error("script");
}
static std::string step(Ops const &o) {
    armed = o.f; fault = 0;
    auto &v = *vs[o.a]; 
    try {
        Kind *k = o.k ? kinds[o.k - 1].get() : nullptr;
        if (o.op == "mk") k->mk(o); else if (o.op == "mkc") k->mkc(o); else if (o.op == "in") k->in(o); else if (o.op == "inm") k->inm(o);
        else if (o.op == "rf") k->rf(o); else if (o.op == "crf") k->crf(o);
        else if (o.op == "cp") { arm(); if (!o.w) *vs[o.b] = v; else { std::unique_ptr<variant> n{new variant(v)}; vs[o.b] = std::move(n); } }
        else if (o.op == "mv") { if (!o.w || o.a == o.b) *vs[o.b] = std::move(v); else { std::unique_ptr<variant> n{new variant(std::move(v))}; vs[o.b] = std::move(n); } }
        else if (o.op == "sw") { if (o.w) std::swap(v, *vs[o.b]); else swap(v, *vs[o.b]); }
        else if (o.op == "cl") { if (o.w == 0) v.clear(); else if (o.w == 1) vs[o.a] = std::make_unique<variant>(); else if (o.w == 2) v = variant{}; else v = variant::empty_variant; }
        else if (o.op == "re") { auto n = std::make_unique<variant>(std::move(v)); vs[o.a] = std::move(n); }
        else if (o.op == "set") held(o.a).set(o); else if (o.op == "ss") held(o.a).ss(o); else if (o.op == "sm") held(o.a).sm(o);
        else if (o.op == "rr") held(o.a).rr(o); else if (o.op == "to") held(o.a).to(o); else if (o.op == "x") k->x(o);
        else if (o.op == "cv") { if (!k->cv(o)) return "false"; }
        else if (o.op == "mc") { pool[o.a] = k->mc(o); poolKind[o.a] = o.k; }
        else if (o.op == "md") { kinds[poolKind[o.a] - 1]->md(pool[o.a]); pool[o.a] = nullptr; }
        fault = 0;
        return "ok";
    }
    catch (Injected const &) { fault = 0; return "injected"; }
    catch (rtti::bad_cast const &) { fault = 0; return "cast"; }
    catch (rtti::runtime_error const &) { fault = 0; return "runtime"; }
    catch (std::exception const &) { fault = 0; return "other"; }
}
static void observe(std::string &o) {
    o += ",\"v\":[";
    for (std::size_t i = 0; i < vs.size(); ++i) {
        variant const &v = *vs[i];
        std::string s = "[\"unknown\",0,0]";
        if (v.empty() != !bool(v)) s = "[\"confused\",0,0]";
        else if (v.empty()) { if (v.typeId() == rtti::MetaType_ID{} && !v.metaClass()) s = "[\"none\",0,0]"; }
        else for (std::size_t k = 0; k < kinds.size(); ++k) if (kinds[k]->seen(v, int(k) + 1, s)) break;
        o += (i ? "," : "") + s;
    }
    o += "],\"ext\":[";
    for (std::size_t k = 0; k < kinds.size(); ++k) o += (k ? "," : "") + std::to_string(kinds[k]->ext());
    o += "],\"pool\":[";
    for (std::size_t i = 0; i < pool.size(); ++i)
        o += (i ? "," : "") + (pool[i] ? "[\"val\"," + std::to_string(poolKind[i]) + "," + std::to_string(kinds[poolKind[i] - 1]->tok(pool[i])) + "]" : std::string("[\"none\",0,0]"));
    o += "]";
}
static std::string tail() {
    std::string o = ",\"live\":" + std::to_string(live) + ",\"err\":[";
    for (int i = 0; i < nerr; ++i) o += std::string(i ? "," : "") + "\"" + errs[i] + "\"";
    return o + "]";
}
static void run(std::vector<Ops> const &script, int nv, int np, bool quiet) {
    live = 0; nerr = 0;
    auto before = outstanding;
    for (int i = 0; i < nv; ++i) vs.push_back(std::make_unique<variant>());
    pool.assign(np, nullptr); poolKind.assign(np, 0);
    for (auto &k: kinds) k->reset();
    if (!quiet) std::printf("{\"nv\":%d,\"np\":%d,\"ev\":[", nv, np);
    bool first = true;
    for (auto const &o: script) {
        auto out = step(o);
        {
            std::string s = "{\"o\":{\"op\":\"" + o.op + "\",\"a\":" + std::to_string(o.a + 1) + ",\"b\":" + std::to_string(o.b + 1) + ",\"k\":" + std::to_string(o.k)
                + ",\"t\":" + std::to_string(o.t) + ",\"w\":" + std::to_string(o.w) + ",\"f\":" + std::to_string(o.f) + "},\"out\":\"" + out + "\"";
            observe(s);
            s += tail() + "}";
            if (!quiet) { if (!first) std::fputs(",", stdout); std::fputs(s.c_str(), stdout); }
            first = false;
        }
    }
    vs.clear(); vs.shrink_to_fit();
    for (std::size_t i = 0; i < pool.size(); ++i) if (pool[i]) kinds[poolKind[i] - 1]->md(pool[i]);
    pool.clear(); pool.shrink_to_fit(); poolKind.clear(); poolKind.shrink_to_fit();
    for (auto &k: kinds) k->drop();
    long mem = outstanding - before;
    if (!quiet) {
        std::printf("%s{\"o\":{\"op\":\"end\"},\"mem\":%ld%s}]}\n", first ? "" : ",", mem, tail().c_str());
        std::fflush(stdout);
    }
}
int main(int argc, char **argv) {
    int nv = std::atoi(argv[1]), np = std::atoi(argv[2]);
    add<S>(); add<L>(); add<O>(); add<CL>(); add<MS>(); add<ML>(); add<S[2]>(); add<L[3]>(); add<ND>();
    add<std::string>(); add<int>(); add<std::shared_ptr<int>>(); add<std::unique_ptr<int>>(); add<std::vector<int>>(); add<double>(); add<En>(); add<CS>();
    add<O[2]>(); add<std::string[2]>(); add<Pod>(); add<long const*>(); add<SO>(); add<ML[2]>(); add<int[4]>();
    if (argc > 3) {    // describe the kinds
        for (auto &k: kinds) (void)k;
        return 0;
    }
    MetaType::registerConverter<S, L>([](S const &s) { return L(s.get()); });
    MetaType::registerConverter<L, S>([](L const &s) { point<true>(); return S(s.get()); });
    MetaType::registerConverter<std::string, L>([](std::string const &s) { point<true>(); return L(K<std::string>::get(s)); });
    MetaType::registerConverter<L, std::string>([](L const &s) { point<true>(); return K<std::string>::make(s.get()); });
    MetaType::registerConverter<S, ML>([](S const &s) { return ML(s.get()); });
    MetaType::registerConverter<int, ND>([](int s) { point<true>(); return ND(s); });
    MetaType::registerConverter<double, O>([](double s) { point<true>(); return O(int(s)); });
    std::vector<std::vector<Ops>> scripts(1);
    std::string line;
    while (std::getline(std::cin, line)) {
        if (line == "---") { scripts.emplace_back(); continue; }
        std::istringstream is(line); Ops o; is >> o.op >> o.a >> o.b >> o.k >> o.t >> o.w >> o.f; --o.a; --o.b;
        scripts.back().push_back(o);
    }
    int jobs = 8;
    for (std::size_t k = 0; k < scripts.size(); ++k) {
        std::fflush(stdout);
        auto pid = fork();
        if (!pid) {
            auto err = std::freopen("/dev/null", "w", stderr); (void)err;
            run(scripts[k], nv, np, true);
            run(scripts[k], nv, np, false);
            _exit(0);
        }
        int st; waitpid(pid, &st, 0);
        if (st) { std::printf("\n{\"crash\":%d}\n", st); std::fflush(stdout); }
    }
    (void)jobs;
}
