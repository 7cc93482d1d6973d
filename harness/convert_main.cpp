// Converters and conversions under scripts: "op a b k t w"; scripts separated by ---
#include <rtti/variant.h>
#include <rtti/metadefine.h>
#include "tracked.h"
#include <cstdio>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <sstream>
#include <string>
#include <sys/wait.h>
#include <unistd.h>
#include <vector>
using tracked::Core;
using namespace rtti;
struct Thrown {};
template<typename T> struct K;
template<typename T> int tokof(T const &x) { return K<T>::get(x); }
#define COPYABLE(N) N(N const &o) { core.birth(o.core.look()); } N &operator=(N const &o) { core.put(o.core.look()); return *this; }
#define MOVABLE(N) N(N &&o) noexcept { core.birth(o.core.take()); } N &operator=(N &&o) noexcept { if (this != &o) core.put(o.core.take()); return *this; }
#define METHODS \
    template<typename To, int I> To m() const { return K<To>::make(apply(I, core.look())); } \
    template<typename To, int I> To mok(bool &ok) const { return K<To>::make(apply(I, core.look(), ok)); }
inline int apply(int i, int x) { if (x % 10 == 7) throw Thrown{}; return x % 10 + 10 * i; }
inline int apply(int i, int x, bool &ok) { if (x % 10 != 8) ok = true; else if (i % 2) ok = false; return apply(i, x); }
struct A { Core core; A(int t) { core.birth(t); } ~A() { core.death(); } COPYABLE(A) MOVABLE(A) METHODS
    bool operator==(A const &o) const { return core.look() == o.core.look(); } };
struct B { Core core; char pad[40]; explicit B(int t) { core.birth(t); } B(std::string const &s): B(std::atoi(s.c_str())) {} ~B() { core.death(); } COPYABLE(B) MOVABLE(B) METHODS
    bool operator==(B const &o) const { return core.look() == o.core.look(); } };
struct Other { virtual ~Other() = default; char pad[24] = {}; };
struct Base { Core core; explicit Base(int t = 0) { core.birth(t); } ~Base() { core.death(); } COPYABLE(Base) MOVABLE(Base) METHODS
    bool operator==(Base const &o) const { return core.look() == o.core.look(); } };
struct Derived: Other, Base { explicit Derived(int t = 0): Base(t) {} Derived(Derived const&) = default; Derived(Derived&&) = default; Derived &operator=(Derived const&) = default; Derived &operator=(Derived&&) = default;
    template<typename To, int I> To m() const { return Base::m<To, I>(); } template<typename To, int I> To mok(bool &ok) const { return Base::mok<To, I>(ok); } };
struct M { Core core; explicit M(int t) { core.birth(t); } ~M() { core.death(); } M(M const&) = delete; M &operator=(M const&) = delete; MOVABLE(M) METHODS };
struct N { Core core; explicit N(int t) { core.birth(t); } ~N() { core.death(); } COPYABLE(N) MOVABLE(N) METHODS };

static Derived *pool; static int ints[100], arrs[100][2];
template<> struct K<int> { static int make(int t) { return t; } static int get(int t) { return t; } };
template<> struct K<std::string> { static std::string make(int t) { return std::to_string(t) + " and something that does not fit"; } static int get(std::string const &s) { return s.find(" and ") == s.npos ? -1 : std::atoi(s.c_str()); } };
#define TR(T) template<> struct K<T> { static T make(int t) { return T(t); } static int get(T const &x) { return x.core.look(); } };
TR(A) TR(B) TR(Base) TR(Derived) TR(M) TR(N)
template<> struct K<Base*> { static Base *make(int t) { return &pool[t]; } static int get(Base const *p) { for (int i = 0; i < 100; ++i) if (static_cast<Base*>(&pool[i]) == p) return i; return -1; } };
template<> struct K<Derived*> { static Derived *make(int t) { return &pool[t]; } static int get(Derived const *p) { return p >= pool && p < pool + 100 ? int(p - pool) : -1; } };
template<> struct K<int*> { static int *make(int t) { return &ints[t]; } static int get(int const *p) { return *p; } };
template<> struct K<Base const*>: K<Base*> { static Base const *make(int t) { return K<Base*>::make(t); } };
template<> struct K<Derived const*>: K<Derived*> { static Derived const *make(int t) { return K<Derived*>::make(t); } };
template<> struct K<int const*>: K<int*> { static int const *make(int t) { return K<int*>::make(t); } };

struct Op { std::string op; int a, b; std::string k; int t, w; };
static std::vector<std::unique_ptr<variant>> vs;
// ------------------------------------------------------------------ types
struct Type {       // a type that can be held, referred to, converted to
    virtual ~Type() = default;
    virtual void reset() = 0; virtual void drop() = 0; virtual void x(int) = 0;
    virtual void hold(Op const &) = 0;
    virtual bool seen(variant const &, int, std::string &) = 0;
    virtual int to(Op const &) = 0; virtual void conv(Op const &) = 0; virtual bool tryc(Op const &) = 0; virtual bool can(Op const &) = 0;
    virtual bool eq(Op const &) = 0;
};
template<typename T> constexpr bool constPointee() { return std::is_pointer_v<T> && std::is_const_v<std::remove_pointer_t<T>>; }
template<typename T, int D> struct TypeOf: Type {
    struct Ext { T x; Ext(): x(K<T>::make(1)) {} };
    std::unique_ptr<Ext> e;
    void reset() override { e = std::make_unique<Ext>(); }
    void drop() override { e.reset(); }
    void x(int t) override { e->x = K<T>::make(t); }
    void hold(Op const &o) override {
        auto &v = *vs[o.a];
        if (o.k == "none") v.clear();
        else if (o.k == "val") v = K<T>::make(o.t);
        else if (o.k == "ref") v = std::ref(e->x);
        else if (o.k == "cref") v = std::cref(e->x);
        else if (o.k == "arr") {
            if constexpr(std::is_same_v<T, int*>) { int a[2] = {o.t, o.t}; v = a; }
            if constexpr(std::is_same_v<T, int const*>) { arrs[o.t][0] = arrs[o.t][1] = o.t; v = std::cref(arrs[o.t]); }
        }
    }
    bool seen(variant const &v, int, std::string &o) override {
        if constexpr(std::is_pointer_v<T>)
            if (v.typeId() == metaTypeId<std::remove_const_t<std::remove_pointer_t<T>>[2]>() || v.typeId() == metaTypeId<std::remove_const_t<std::remove_pointer_t<T>> const[2]>()) {
                if constexpr(std::is_same_v<T, int*>) {
                    bool c = v.typeId() != metaTypeId<int[2]>();
                    auto &r = v.cref<int[2]>();
                    o = std::string("[\"arr\",") + std::to_string(D) + "," + (c ? "1" : "0") + "," + std::to_string(r[0] == r[1] ? r[0] : -1) + "]";
                    return true;
                }
                return false;
            }
        bool c = v.typeId() == metaTypeId<T const>();
        if (!c && v.typeId() != metaTypeId<T>()) return false;
        T const *p = nullptr;
        try { p = &v.cref<T>(); } catch (...) { o = "[\"unreadable\",0,0,0]"; return true; }
        bool r = p == &e->x;
        o = std::string("[\"") + (r ? c ? "cref" : "ref" : c ? "constant" : "val") + "\"," + std::to_string(D) + "," + (constPointee<T>() ? "1" : "0") + "," + std::to_string(tokof<T>(*p)) + "]";
        return true;
    }
    int to(Op const &o) override {
        if constexpr(std::is_pointer_v<T>) return tokof<T>(o.w % 2 ? static_cast<variant const &>(*vs[o.a]).to<T>() : vs[o.a]->to<T>());
        else { T x = o.w % 2 ? static_cast<variant const &>(*vs[o.a]).to<T>() : vs[o.a]->to<T>(); return tokof<T>(x); }
    }
    void conv(Op const &o) override { vs[o.a]->convert<T>(); }
    bool tryc(Op const &o) override { return vs[o.a]->tryConvert<T>(); }
    bool can(Op const &o) override { return o.w % 2 ? static_cast<variant const &>(*vs[o.a]).canConvert<T>() : vs[o.a]->canConvert<T>(); }
    bool eq(Op const &o) override { T const x = K<T>::make(o.t); return o.w % 2 ? !vs[o.a]->neq(x) : vs[o.a]->eq(x); }
};
static std::vector<std::unique_ptr<Type>> types;
// ------------------------------------------------------------------ converters
struct Pair {
    int from, to; virtual ~Pair() = default;
    virtual bool reg(std::string const &kind, int id, int w) = 0; virtual void unreg(int w) = 0; virtual bool has(int w) = 0;
};
template<typename F, typename T, int I> T fun(F const &x) { return K<T>::make(apply(I, tokof<F>(x))); }
template<typename F, typename T, int I> T funv(F x) { return K<T>::make(apply(I, tokof<F>(x))); }
template<typename F, typename T, int I> T funok(F x, bool &ok) { return K<T>::make(apply(I, tokof<F>(x), ok)); }
template<typename F, typename T, int I> T funokr(F const &x, bool &ok) { return K<T>::make(apply(I, tokof<F>(x), ok)); }
template<typename F, typename T> struct Functor { int id; std::shared_ptr<int> keep = std::make_shared<int>(id); T operator()(F const &x) const { return K<T>::make(apply(*keep, tokof<F>(x))); } };
template<int I> struct Int { static constexpr int value = I; };
template<typename F> bool byId(int id, F &&f) { switch (id) { case 1: return f(Int<1>{}); case 2: return f(Int<2>{}); default: return f(Int<3>{}); } }
template<typename F, typename T> struct PairOf: Pair {
    bool reg(std::string const &k, int id, int w) override {
        if (k == "function") return byId(id, [w](auto i) {
            if constexpr(std::is_copy_constructible_v<F>) { if (w % 2 == 0) return MetaType::registerConverter<F, T>(&funv<F, T, decltype(i)::value>); }
            return MetaType::registerConverter(&fun<F, T, decltype(i)::value>); });
        if (k == "lambda") {
            auto f = [id](F const &x) { return K<T>::make(apply(id, tokof<F>(x))); };
            if (w % 3 == 0) return MetaType::registerConverter<F, T>(f);
            if (w % 3 == 1) return MetaType::registerConverter<F, T>([id](F const &x) { return K<T>::make(apply(id, tokof<F>(x))); });
            return MetaType::registerConverter<F const, T>(std::move(f));
        }
        if (k == "functor") { if (w % 2) return MetaType::registerConverter<F, T>(Functor<F, T>{id}); Functor<F, T> const f{id}; return MetaType::registerConverter<F, T>(f); }
        if (k == "std::function") { std::function<T(F const &)> f = [id](F const &x) { return K<T>::make(apply(id, tokof<F>(x))); }; if (w % 2) return MetaType::registerConverter<F, T>(std::move(f)); return MetaType::registerConverter<F, T>(f); }
        if (k == "ok lambda") return MetaType::registerConverter<F, T>([id](F const &x, bool &ok) { return K<T>::make(apply(id, tokof<F>(x), ok)); });
        if (k == "ok function") return byId(id, [w](auto i) {
            if constexpr(std::is_copy_constructible_v<F>) { if (w % 2 == 0) return MetaType::registerConverter<F, T>(&funok<F, T, decltype(i)::value>); }
            return MetaType::registerConverter<F, T>(&funokr<F, T, decltype(i)::value>); });
        if constexpr(std::is_class_v<F> && !std::is_same_v<F, std::string>) {
            if (k == "method") return byId(id, [](auto i) { return MetaType::registerConverter<F, T>(&F::template m<T, decltype(i)::value>); });
            if (k == "ok method") return byId(id, [](auto i) { return MetaType::registerConverter<F, T>(&F::template mok<T, decltype(i)::value>); });
        }
        if constexpr(std::is_convertible_v<F, T> && !std::is_arithmetic_v<T> && !std::is_same_v<T, B>)
            if (k == "implicit") return MetaType::registerConverter<F, T>();
        std::abort();
    }
    void unreg(int w) override {
        if (w % 3 == 0) MetaType::unregisterConverter<F, T>();
        else if (w % 3 == 1) MetaType::unregisterConverter(metaTypeId<F>(), metaTypeId<T>());
        else MetaType::unregisterConverter<F const &, T const>();
    }
    bool has(int w) override {
        if (w % 5 == 0) return MetaType::hasConverter<F, T>();
        if (w % 5 == 1) return MetaType::hasConverter(metaTypeId<F>(), metaTypeId<T>());
        if (w % 5 == 2) return MetaType::hasConverter<F const &, T>();
        if (w % 5 == 3) return MetaType::hasConverter<F &&, T const>();
        return MetaType::hasConverter(MetaType{metaTypeId<F const>()}, MetaType{metaTypeId<T &>()});
    }
};
static std::vector<std::unique_ptr<Pair>> pairs;
template<typename F, typename T> void pair(int f, int t) { auto p = std::make_unique<PairOf<F, T>>(); p->from = f; p->to = t; pairs.push_back(std::move(p)); }
static Pair &find(int f, int t) { for (auto &p: pairs) if (p->from == f && p->to == t) return *p; std::abort(); }

static std::string step(Op const &o, int &result) {
    try {
        if (o.op == "reg") return find(o.a, o.b).reg(o.k, o.t, o.w) ? "true" : "false";
        if (o.op == "unreg") { find(o.a, o.b).unreg(o.w); return "ok"; }
        if (o.op == "has") return find(o.a, o.b).has(o.w) ? "true" : "false";
        if (o.op == "x") { types[o.a - 1]->x(o.t); return "ok"; }
        auto &t = *types[o.b - 1];
        if (o.op == "hold") t.hold(o);
        if (o.op == "to") result = t.to(o);
        if (o.op == "conv") t.conv(o);
        if (o.op == "try") return t.tryc(o) ? "ok" : "false";
        if (o.op == "can") return t.can(o) ? "true" : "false";
        if (o.op == "eq") return t.eq(o) ? "true" : "false";
        return "ok";
    }
    catch (Thrown const &) { return "thrown"; }
    catch (rtti::bad_cast const &) { return "cast"; }
    catch (rtti::runtime_error const &) { return "runtime"; }
    catch (std::exception const &) { return "other"; }
}
static void run(std::vector<Op> const &script, int n) {
    tracked::live = 0;
    std::vector<Derived> objects; objects.reserve(100);
    for (int i = 0; i < 100; ++i) objects.emplace_back(i), ints[i] = i;
    pool = objects.data();
    for (int i = 0; i < n; ++i) vs.push_back(std::make_unique<variant>());
    for (auto &t: types) t->reset();
    tracked::bad = false;
    auto base = tracked::live;
    std::printf("{\"n\":%d,\"ev\":[", n);
    bool first = true;
    for (auto const &o: script) {
        int result = 0;
        auto out = step(o, result);
        auto live = tracked::live - base;
        std::string s = "{\"o\":{\"op\":\"" + o.op + "\",\"a\":" + std::to_string(o.op == "reg" || o.op == "unreg" || o.op == "has" || o.op == "x" ? o.a : o.a + 1)
            + ",\"b\":" + std::to_string(o.b) + ",\"k\":\"" + o.k + "\",\"t\":" + std::to_string(o.t) + ",\"w\":" + std::to_string(o.w) + "},\"out\":\"" + out + "\",\"r\":" + std::to_string(result) + ",\"v\":[";
        for (std::size_t i = 0; i < vs.size(); ++i) {
            std::string c = "[\"unknown\",0,0,0]";
            if (vs[i]->empty()) c = "[\"none\",0,0,0]";
            else for (std::size_t k = 0; k < types.size(); ++k) if (types[k]->seen(*vs[i], int(k), c)) break;
            s += (i ? "," : "") + c;
        }
        s += "],\"has\":[";
        bool f = true;
        for (auto &p: pairs) if (p->has(o.w + 1)) { s += std::string(f ? "" : ",") + "[" + std::to_string(p->from) + "," + std::to_string(p->to) + "]"; f = false; }
        s += "],\"live\":" + std::to_string(live) + ",\"bad\":" + (tracked::bad ? "true" : "false") + "}";
        std::printf("%s%s", first ? "" : ",", s.c_str());
        first = false;
    }
    vs.clear();
    for (auto &t: types) t->drop();
    std::printf("]}\n");
    std::fflush(stdout);
}
int main(int argc, char **argv) {
    int n = std::atoi(argv[1]);
    {
        auto glob = global_define();
        glob._class<Base>("Base")._end()._class<Derived>("Derived")._base<Base>()._end();
    }
    auto add = [](Type *t) { types.emplace_back(t); };
    add(new TypeOf<A, 1>); add(new TypeOf<B, 2>); add(new TypeOf<int, 3>); add(new TypeOf<std::string, 4>); add(new TypeOf<Base, 5>); add(new TypeOf<Derived, 6>);
    add(new TypeOf<Base*, 7>); add(new TypeOf<Derived*, 8>); add(new TypeOf<int*, 9>); add(new TypeOf<M, 10>); add(new TypeOf<N, 11>);
    add(new TypeOf<int const*, 9>); add(new TypeOf<Base const*, 7>); add(new TypeOf<Derived const*, 8>);
    pair<A, B>(1, 2); pair<B, A>(2, 1); pair<A, int>(1, 3); pair<int, A>(3, 1); pair<B, std::string>(2, 4); pair<std::string, B>(4, 2); pair<A, A>(1, 1);
    pair<Derived, Base>(6, 5); pair<Base, A>(5, 1); pair<Derived, A>(6, 1); pair<A, Base>(1, 5); pair<Derived*, Base*>(8, 7); pair<Base*, Derived*>(7, 8); pair<int*, A>(9, 1); pair<A, int*>(1, 9);
    pair<int, M>(3, 10); pair<A, M>(1, 10); pair<M, int>(10, 3); pair<N, int>(11, 3); pair<int, N>(3, 11); pair<std::string, int>(4, 3); pair<int, std::string>(3, 4);
    pair<Base*, int>(7, 3); pair<int, int>(3, 3); pair<Base, Derived>(5, 6);
    std::vector<std::vector<Op>> scripts(1);
    std::string line;
    while (std::getline(std::cin, line)) {
        if (line == "---") { scripts.emplace_back(); continue; }
        std::istringstream is(line); Op o; is >> o.op >> o.a >> o.b >> o.k >> o.t >> o.w;
        if (o.k == "-") o.k.clear();
        for (auto &c: o.k) if (c == '_') c = ' ';
        if (o.op != "reg" && o.op != "unreg" && o.op != "has" && o.op != "x") --o.a;
        scripts.back().push_back(o);
    }
    for (auto const &s: scripts) {
        std::fflush(stdout);
        auto pid = fork();
        if (!pid) {
            auto err = std::freopen("/dev/null", "w", stderr); (void)err;
            run(s, n);
            _exit(0);
        }
        int st; waitpid(pid, &st, 0);
        if (st) { std::printf("\n{\"crash\":%d}\n", st); std::fflush(stdout); }
    }
    // leave through the ordinary end of the program with converters registered
    pair<B, B>(2, 2);
    for (auto &p: pairs) p->reg("lambda", 1, 0), p->has(0);
    types.clear();
    std::printf("{\"end\":1}\n");
}
