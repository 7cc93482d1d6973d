// Definition programs on the real registry: a script drives the fluent definition interface
#pragma once
#include <rtti/metadefine.h>
#include <cstdio>
#include <functional>
#include <map>
#include <memory>
#include <sstream>
#include <string>
#include <vector>
using namespace rtti;
struct Script_thrown {};
#define MEMBERS(K) \
    template<int I> int m() { return I; } template<int I> int mc(int) const { return I; } int a1 = 1, a2 = 2, a3 = 3; K() = default; explicit K(int) {} K(int, char) {}
struct K1 { MEMBERS(K1) };
struct K5 { MEMBERS(K5) };
struct K2: K1 { MEMBERS(K2) };
struct K3: K1, K5 { MEMBERS(K3) };
struct K4: K2, K3 { MEMBERS(K4) };
enum class E1 { x }; enum class E2 { y }; enum E3 { z };

struct Op { std::string op; int a, b; std::string n, m; std::vector<int> l; std::string text; };
std::string quote(std::string_view s);
struct Log {
    std::string s; int depth = 0;
    void add(std::string const &x) { if (!s.empty()) s += ","; s += x; }
};
extern Log journal;
extern std::vector<std::vector<Op>> lazies;
extern std::vector<MetaContainer const*> known;
int known_id(MetaContainer const *c, bool add = false);
int class_no(MetaClass const *c);
void query(Op const &o, std::vector<std::string> &res, std::string &look);
std::string classify();     // of the current exception

struct IDef {
    virtual ~IDef() = default;
    MetaContainer const *self = nullptr;
    virtual void run(Op const &o, std::vector<std::unique_ptr<IDef>> &stack) = 0;
};
using Stack = std::vector<std::unique_ptr<IDef>>;
void exec(Op const &o, Stack &stack, std::string &out, std::vector<std::string> &res, std::string &look, bool nested);
template<typename T> void run_lazy(int i, MetaContainer const *self, meta_define<T> d);

template<typename T, typename B> constexpr bool can_base() {
    return (std::is_same_v<T, K2> && std::is_same_v<B, K1>) || (std::is_same_v<T, K3> && (std::is_same_v<B, K1> || std::is_same_v<B, K5>)) ||
           (std::is_same_v<T, K4> && (std::is_same_v<B, K2> || std::is_same_v<B, K3>));
}
template<int I> int f0() { return I; }
template<int I> int f1(int) { return I; }
template<int I> int f2(int, char) { return I; }
extern int statics[4];

constexpr int MaxDepth = 3;
template<typename T, typename MB, int D> struct Def: IDef {
    meta_define<T, MB> d;
    Def(meta_define<T, MB> d, MetaContainer const *c): d(d) { self = c; }
    static meta_define<T, MB> open(meta_define<T, MB> const &x) { return x; }

    template<typename K> void cls(Op const &o, Stack &stack) {
        if constexpr((std::is_void_v<T> ? D < MaxDepth : D < 2) && !std::is_same_v<K, T>) {
            auto r = d.template _class<K>(o.n);
#ifdef CONCURRENT
            auto p = MetaClass::find(metaTypeId<K>());      // runs no deferred definition
#else
            auto p = self->getClass(o.n);
            known_id(p, true);
#endif
            stack.push_back(std::make_unique<Def<K, meta_define<T, MB>, D + 1>>(r, p));
        }
    }
    template<typename K> void cls_end(Op const &o) {
        if constexpr((std::is_void_v<T> ? D < MaxDepth : D < 2) && !std::is_same_v<K, T>) d = d.template _class<K>(o.n)._end();
    }
    template<typename X> struct Parent;
    template<typename T2, typename M2> struct Parent<meta_define<T2, M2>> { using type = Def<T2, M2, D - 1>; };
    template<typename B> void base1() { if constexpr(can_base<T, B>()) d = d.template _base<B>(); }
    template<typename B, typename C> void base2() { if constexpr(can_base<T, B>() && can_base<T, C>()) d = d.template _base<B, C>(); }
    void method(Op const &o) {
        int (*const g0[])() = {nullptr, &f0<1>, &f0<2>, &f0<3>};
        int (*const g1[])(int) = {nullptr, &f1<1>, &f1<2>, &f1<3>};
        int (*const g2[])(int, char) = {nullptr, &f2<1>, &f2<2>, &f2<3>};
        switch (o.a) {
        case 0: d = d._method(o.n, g0[o.b]); break;
        case 1: d = d._method(o.n, g1[o.b]); break;
        case 2: d = d._method(o.n, g2[o.b]); break;
        default:
            if constexpr(std::is_class_v<T>) {
                int (T::*const m[])() = {nullptr, &T::template m<1>, &T::template m<2>, &T::template m<3>};
                int (T::*const mc[])(int) const = {nullptr, &T::template mc<1>, &T::template mc<2>, &T::template mc<3>};
                if (o.a == 3) d = d._method(o.n, m[o.b]); else d = d._method(o.n, mc[o.b]);
            }
        }
    }
    void run(Op const &o, Stack &stack) override {
        if (o.op == "ns") {
            if constexpr(std::is_void_v<T> && D < MaxDepth) {
                auto r = d._namespace(o.n);
#ifdef CONCURRENT
                MetaNamespace const *p = nullptr;
                while (!p) try { p = self->getNamespace(o.n); } catch (...) {}      // deferred definitions added meanwhile
#else
                auto p = self->getNamespace(o.n);
                known_id(p, true);
#endif
                stack.push_back(std::make_unique<Def<void, meta_define<T, MB>, D + 1>>(r, p));
            }
        } else if (o.op == "class") {
            switch (o.a) { case 1: cls<K1>(o, stack); break; case 2: cls<K2>(o, stack); break; case 3: cls<K3>(o, stack); break;
                           case 4: cls<K4>(o, stack); break; case 5: cls<K5>(o, stack); break; }
        } else if (o.op == "nsx") {
            if constexpr(std::is_void_v<T> && D < MaxDepth) d = d._namespace(o.n)._end();
        } else if (o.op == "clsx") {
            switch (o.a) { case 1: cls_end<K1>(o); break; case 2: cls_end<K2>(o); break; case 3: cls_end<K3>(o); break;
                           case 4: cls_end<K4>(o); break; case 5: cls_end<K5>(o); break; }
        } else if (o.op == "end") {
            if constexpr(!std::is_void_v<MB>) {
                auto m = d._end();
                stack.pop_back();
                static_cast<typename Parent<MB>::type*>(stack.back().get())->d = m;
            }
        } else if (o.op == "attr") { if (o.a % 2) d = d._attribute(o.n, o.a); else d = d._attribute(o.n, std::to_string(o.a)); }
        else if (o.op == "elem") { if (o.a % 2) d = d._element(o.n, o.a); else d = d._element(o.n, std::to_string(o.a)); }
        else if (o.op == "enum") d = d.template _enum<E1>(o.n);
        else if (o.op == "method") method(o);
        else if (o.op == "prop") {
            if (o.a == 0) d = d._property(o.n, &statics[o.b]);
            else if constexpr(std::is_class_v<T>) { int T::*p = o.b == 1 ? &T::a1 : o.b == 2 ? &T::a2 : &T::a3; d = d._property(o.n, p); }
           
        } else if (o.op == "ctor") {
            if constexpr(std::is_class_v<T>) {
                auto n = o.n == "constructor" ? "" : o.n;
                if (o.a == 0) d = d.template _constructor<int>(n); else if (o.a == 1) d = d.template _constructor<int, char>(n);
                else if (o.a == 2) d = d.template _constructor<>(n); else d = d.template _constructor<T const&>(n);
            }
        } else if (o.op == "base") {
            if constexpr(std::is_class_v<T>) {
                auto &l = o.l;
                if (l == std::vector<int>{1}) base1<K1>(); else if (l == std::vector<int>{5}) base1<K5>();
                else if (l == std::vector<int>{2}) base1<K2>(); else if (l == std::vector<int>{3}) base1<K3>();
                else if (l == std::vector<int>{1, 5}) base2<K1, K5>(); else if (l == std::vector<int>{5, 1}) base2<K5, K1>();
                else if (l == std::vector<int>{2, 3}) base2<K2, K3>(); else if (l == std::vector<int>{3, 2}) base2<K3, K2>();
               
            }
        } else if (o.op == "lazy") {
            auto i = o.a; auto s = self;
            d = d._lazy([i, s](meta_define<T> x) { run_lazy<T>(i, s, x); });
        } else if (o.op == "throw") throw Script_thrown{};
       
    }
};
std::string lazy_begin(int i, MetaContainer const *self);
void lazy_end(int i, MetaContainer const *self, std::string const &out);
void run_ops(int i, Stack &stack);
template<typename T> void run_lazy(int i, MetaContainer const *self, meta_define<T> d) {
    lazy_begin(i, self);
    try {
        Stack stack;
        stack.push_back(std::make_unique<Def<T, void, std::is_void_v<T> ? 0 : 1>>(d, self));
        run_ops(i, stack);
    } catch (...) { lazy_end(i, self, classify()); throw; }
    lazy_end(i, self, "ok");
}
