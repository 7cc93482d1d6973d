// Slots (objects and variants arguments are taken from) and bodies of the functions called
#pragma once
#include <rtti/metadefine.h>
#include "tracked.h"
#include <cstdio>
#include <functional>
#include <memory>
#include <string>
#include <type_traits>
#include <vector>
using namespace rtti;
struct Thrown {};
template<typename T> using Ptr = T*;
template<typename T, int N> using Arr = T[N];
template<typename T> using L = T&;
template<typename T> using R = T&&;
template<typename T> struct Self { using type = T; };
constexpr int Pool = 100;
extern int ints[Pool];
#define COPYABLE(N) N(N const &o) { core.birth(o.core.look()); } N &operator=(N const &o) { core.put(o.core.look()); return *this; }
#define MOVABLE(N) N(N &&o) noexcept { core.birth(o.core.take()); } N &operator=(N &&o) noexcept { if (this != &o) core.put(o.core.take()); return *this; }
struct M { tracked::Core core; explicit M(int t) { core.birth(t); } ~M() { core.death(); } M(M const&) = delete; M &operator=(M const&) = delete; MOVABLE(M) };
struct N { tracked::Core core; char pad[32]; explicit N(int t) { core.birth(t); } N(char const *s): N(std::atoi(s)) {} ~N() { core.death(); } COPYABLE(N) };
#define WITHFIELDS(N) N(N const &o) { core.birth(o.core.look()); fields(o); } N &operator=(N const &o) { core.put(o.core.look()); fields(o); return *this; } \
    N(N &&o) noexcept { core.birth(o.core.take()); fields(o); } N &operator=(N &&o) noexcept { if (this != &o) core.put(o.core.take()); fields(o); return *this; }
struct Base; struct Derived;
struct A { tracked::Core core; explicit A(int t) { core.birth(t); } ~A() { core.death(); } WITHFIELDS(A)
#include "invoke_methods_A.h"
};
struct Other { virtual ~Other() = default; char pad[24] = {}; };
struct Base { tracked::Core core; explicit Base(int t = 0) { core.birth(t); } virtual ~Base() { core.death(); } WITHFIELDS(Base)
#include "invoke_methods_Base.h"
    DECLARE_CLASSINFO
};
struct Derived: Other, Base { explicit Derived(int t = 0): Base(t) {} Derived(Derived const&) = default; Derived(Derived&&) = default; Derived &operator=(Derived const&) = default; Derived &operator=(Derived&&) = default;
#include "invoke_methods_Derived.h"
    DECLARE_CLASSINFO
};
extern Derived *pool;
inline std::string text(int t) { return t ? std::to_string(t) + " and something that does not fit" : std::string{}; }
template<typename T> struct K;
template<> struct K<int> { static int make(int t) { return t; } static int get(int t) { return t; } static void put(int &x, int t) { x = t; } };
template<> struct K<std::string> { static std::string make(int t) { return text(t); } static int get(std::string const &s) { return s.empty() ? 0 : s.find(" and ") == s.npos ? -1 : std::atoi(s.c_str()); } static void put(std::string &x, int t) { x = text(t); } };
#define TR(T) template<> struct K<T> { static T make(int t) { return T(t); } static int get(T const &x) { return x.core.look(); } static void put(T &x, int t) { x.core.put(t); } };
TR(A) TR(Base) TR(Derived) TR(M) TR(N)
template<typename B> struct K<B*> {
    static B *make(int t) { if constexpr(std::is_same_v<std::remove_const_t<B>, int>) return &ints[t]; else return &pool[t]; }
    static int get(B const *p) { if constexpr(std::is_same_v<std::remove_const_t<B>, int>) return *p; else for (int i = 0; i < Pool; ++i) if (make(i) == p) return i; return -1; }
    static void put(B *&x, int t) { x = make(t); }
};
template<> struct K<int[2]> { static int get(int const (&x)[2]) { return x[0] == x[1] ? x[0] : -1; } static void put(int (&x)[2], int t) { x[0] = x[1] = t; } };

// ------------------------------------------------------------------ slots
struct Slot {
    virtual ~Slot() = default;
    virtual void reset(int tok) = 0;
    virtual int tok() = 0;
    virtual bool inside(void const *) = 0;
    virtual argument arg() = 0;
    virtual variant first(MetaMethod const &, std::vector<argument> &) = 0;     // invoked with this one as the first argument
    virtual variant byName(char const *, std::vector<argument> &) { throw 0; }
    virtual variant construct(MetaConstructor const &, std::vector<argument> &) { throw 0; }
    virtual variant *held() { return nullptr; }
    virtual variant getProp(MetaProperty const &) { throw 0; }                  // of this instance
    virtual void setProp(MetaProperty const &, argument) { throw 0; }
    virtual variant getByName(char const *) { throw 0; }
    virtual void setByName(char const *, argument) { throw 0; }
    virtual void *object() { return nullptr; }                                  // the object itself
    virtual bool temporary() { return false; }                                  // is copied to serve as an instance
};
extern std::vector<Slot*> slots;
inline int find(void const *p) { for (std::size_t i = 0; i < slots.size(); ++i) if (slots[i]->inside(p)) return int(i) + 1; return 0; }

template<typename F, std::size_t ...I> variant spread(F &&f, std::vector<argument> &r, std::index_sequence<I...>) { return f(std::move(r[I])...); }
template<std::size_t Max, typename F> variant apply(F &&f, std::vector<argument> &r) {
    if (r.size() == Max) return spread(f, r, std::make_index_sequence<Max>{});
    if constexpr(Max > 0) return apply<Max - 1>(f, r);
    throw 0;
}
template<typename T> struct Obj { T x; Obj(): x(K<T>::make(0)) {} };
template<> struct Obj<int[2]> { int x[2] = {0, 0}; };

enum Expr { Lv, CLv, Rv, CRv };
template<Expr E, typename T> decltype(auto) expr(T &x) {
    if constexpr(E == Lv) return static_cast<T&>(x); else if constexpr(E == CLv) return static_cast<T const&>(x);
    else if constexpr(E == Rv) return static_cast<T&&>(x); else return static_cast<T const&&>(x);
}
// plain object passed as is
template<typename T, Expr E, bool First> struct Plain: Slot {
    Obj<T> o;
    void reset(int t) override { K<T>::put(o.x, t); }
    int tok() override { return K<T>::get(o.x); }
    bool inside(void const *p) override { auto a = reinterpret_cast<char const*>(&o.x), b = static_cast<char const*>(p); return b >= a && b < a + sizeof o.x; }
    argument arg() override { return argument{expr<E>(o.x)}; }
    variant first(MetaMethod const &m, std::vector<argument> &r) override {
        if constexpr(First) return apply<9>([&](auto &&...a) { return m.invoke(expr<E>(o.x), std::move(a)...); }, r);
        else throw 0;
    }
    variant construct(MetaConstructor const &c, std::vector<argument> &r) override {
        if constexpr(!std::is_array_v<T>) return apply<9>([&](auto &&...a) { return c.invoke(expr<E>(o.x), std::move(a)...); }, r);
        else throw 0;
    }
    variant getProp(MetaProperty const &p) override { if constexpr(First) return p.get(expr<E>(o.x)); else throw 0; }
    void setProp(MetaProperty const &p, argument a) override { if constexpr(First) p.set(expr<E>(o.x), std::move(a)); else throw 0; }
    void *object() override { return &o.x; }
    bool temporary() override { return std::is_class_v<T>; }
};
// variant; H: 'v' holds the value, 'r' refers to an object, 'c' refers to a constant object, 'e' empty
template<typename T, Expr E, char H> struct Var: Slot {
    variant v; Obj<T> o;
    void fill(int t) {
        if constexpr(H == 'v') { if constexpr(std::is_array_v<T>) v = o.x; else v = K<T>::make(t); }
        else if constexpr(H == 'r') v = std::ref(o.x);
        else if constexpr(H == 'c') v = std::cref(o.x);
    }
    void reset(int t) override { if constexpr(H == 'e') return; v.clear(); K<T>::put(o.x, t); fill(t); if constexpr(H == 'v' ) K<T>::put(o.x, 0); }
    int tok() override { if constexpr(H == 'e') return 0; else if constexpr(H == 'v') return v.empty() ? 0 : K<T>::get(v.cref<T>()); else return K<T>::get(o.x); }
    bool inside(void const *p) override {
        auto in = [&](void const *x, std::size_t n) { auto a = static_cast<char const*>(x), b = static_cast<char const*>(p); return b >= a && b < a + n; };
        if (in(&v, sizeof v)) return true;
        if constexpr(H == 'e') return false;
        else if constexpr(H == 'v') return !v.empty() && in(&v.cref<T>(), sizeof(T)); else return in(&o.x, sizeof(T));
    }
    argument arg() override { return argument{expr<E>(v)}; }
    variant first(MetaMethod const &m, std::vector<argument> &r) override { return apply<9>([&](auto &&...a) { return m.invoke(expr<E>(v), std::move(a)...); }, r); }
    variant construct(MetaConstructor const &c, std::vector<argument> &r) override { return apply<9>([&](auto &&...a) { return c.invoke(expr<E>(v), std::move(a)...); }, r); }
    variant *held() override { return &v; }
    variant byName(char const *n, std::vector<argument> &r) override { return apply<9>([&](auto &&...a) { return expr<E>(v).invoke(n, std::move(a)...); }, r); }
    variant getProp(MetaProperty const &p) override { return p.get(expr<E>(v)); }
    void setProp(MetaProperty const &p, argument a) override { p.set(expr<E>(v), std::move(a)); }
    variant getByName(char const *n) override { return expr<E>(v).get_property(n); }
    void setByName(char const *n, argument a) override { if constexpr(E == Lv || E == Rv) expr<E>(v).set_property(n, std::move(a)); else throw 0; }
    void *object() override { if constexpr(H == 'v') return const_cast<T*>(&v.cref<T>()); else if constexpr(H == 'e') return nullptr; else return &o.x; }
};
// ------------------------------------------------------------------ bodies
struct Seen { int tok, where; };
struct Call { int times = 0; std::vector<Seen> seen; bool throws = false, temp = false; };
extern Call call;
inline int next(int t) { return (t + 11) % 97 + 1; }
template<typename T> int tokOf(T const &x) { return K<T>::get(x); }
inline int tokOf(variant const &v);
template<typename T> void putTok(T &x, int t) { K<T>::put(x, t); }
inline void putTok(variant &, int) {}
template<typename P> void see(std::remove_reference_t<P> &x) {
    using U = std::remove_reference_t<P>;
    int t = tokOf(x), w = 0;
    if constexpr(std::is_reference_v<P>) w = find(&x);
    call.seen.push_back({t, w});
    if constexpr(std::is_lvalue_reference_v<P> && !std::is_const_v<U>) putTok(x, next(t));
    else if constexpr(std::is_rvalue_reference_v<P> && !std::is_const_v<U>) putTok(x, 0);
}
template<typename C> void seeThis(C *p) {
    int w = find(p);
    call.seen.push_back({p->core.look(), w});
    if constexpr(!std::is_const_v<C>) if (w) p->core.put(next(p->core.look()));
}
// ------------------------------------------------------------------ results, contents of variants
struct Kind { virtual bool is(variant const &, bool &c) = 0; virtual void show(variant const &, int &tok, void const *&p) = 0; };
extern std::vector<Kind*> kinds;
template<typename T> struct KindOf: Kind {
    bool is(variant const &v, bool &c) override { c = v.typeId() == metaTypeId<T const>(); return c || v.typeId() == metaTypeId<T>(); }
    void show(variant const &v, int &tok, void const *&p) override { T const &x = v.cref<T>(); tok = K<T>::get(x); p = &x; }
};
inline int tokOf(variant const &v) {
    if (v.empty()) return 0;
    bool c; int t = -1; void const *p;
    for (auto k: kinds) if (k->is(v, c)) k->show(v, t, p);
    return t;
}
inline void done() { if (call.throws) throw Thrown{}; }
template<typename T> T &back(T &x) { call.temp = !find(&x); return x; }     // returned by reference
extern std::vector<MetaMethod const*> functions;
