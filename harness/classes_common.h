#pragma once
#include <rtti/metadefine.h>
#include <cstdio>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>

// a sub-object of a complete object
struct Sub { int cls; void const *addr; long const *own; };
using Subs = std::vector<Sub>;

// what is held
struct Held {
    rtti::variant v;
    int graph, d, s, c;         // complete class, designated sub-object (0: null pointer), static class
    std::string type;           // json of the type structure
    bool own = false;           // pointer kept in the variant itself
    int level = 0;              // pointer depth
    bool array = false;
    Subs subs;
    void const *where = nullptr; // address of the held pointer (or of the array), if known
    void const *pointee = nullptr;
};
using Res = std::vector<int>;
struct Graph {
    std::vector<void (*)(Held &, std::vector<Res> &)> asks;
    std::vector<void (*)()> hold;
    void (*define)() = nullptr;
};
extern std::vector<Graph> graphs;
void run_held(Held &h);

template<typename F> Res guarded(F &&f) {
    try { return f(); }
    catch (rtti::bad_cast const &) { return {}; }
    catch (...) { return {-1}; }
}
inline std::string list(Res const &r) {
    std::string o = "["; for (auto x: r) { if (o.size() > 1) o += ","; o += std::to_string(x); } return o + "]";
}
inline Res match(Subs const &subs, int cls, void const *p) {
    Res r;
    for (std::size_t i = 0; i < subs.size(); ++i) if (subs[i].cls == cls && subs[i].addr == p) r.push_back(int(i) + 1);
    if (r.empty()) r.push_back(-1);
    return r;
}
// sub-objects which a class (object), or a pointer to class, designated by the result may be
template<typename T, typename K, int CLS> struct Where {
    static constexpr int lvl = std::is_pointer_v<T> ? (std::is_pointer_v<std::remove_pointer_t<T>> ? 2 : 1) : 0;
    static Res ref(Held const &h, T const *p) {
        if constexpr(lvl == 0) return match(h.subs, CLS, p);
        else if constexpr(lvl == 1) {
            if (h.array) return *(void *const*)(p) == h.pointee ? Res{h.s} : Res{-1};
            // reference to the held pointer itself
            if (h.where && static_cast<void const *>(p) != h.where) return {-1};
            return value(h, *p);
        }
        else return static_cast<void const *>(p) == h.where ? Res{h.s} : Res{-1};
    }
    static Res value(Held const &h, T const &x) {
        if constexpr(lvl == 0) {
            // a copy: recognised by its content
            Res r;
            auto own = x.K::own();
            for (std::size_t i = 0; i < h.subs.size(); ++i)
                if (h.subs[i].cls == CLS && static_cast<void const*>(&x) != h.subs[i].addr && (!own || *own == *h.subs[i].own)) r.push_back(int(i) + 1);
            if (r.empty()) r.push_back(-1);
            return r;
        }
        else if constexpr(lvl == 1) {
            if (h.array) return x == h.pointee ? Res{h.s} : Res{-1};
            if (!x) return h.s == 0 ? Res{0} : Res{-1};
            if (h.s == 0) return {-1};
            return match(h.subs, CLS, x);
        }
        else return static_cast<void const*>(x) == h.pointee ? Res{h.s} : Res{-1};
    }
};
template<typename T, typename K, int CLS> void ask(Held &h, std::vector<Res> &r) {
    using W = Where<std::remove_const_t<T>, K, CLS>;
    auto &v = h.v; auto const &cv = h.v;
    auto is = [&](bool b) { r.push_back(b ? Res{-2} : Res{}); };
    is(v.is<T>()); is(cv.is<T>()); is(v.is<T&>()); is(cv.is<T&>()); is(v.is<T&&>()); is(cv.is<T&&>());
    r.push_back(guarded([&] { T &x = v.ref<T>(); return W::ref(h, std::addressof(x)); }));
    r.push_back(guarded([&] { T const &x = cv.ref<T>(); return W::ref(h, std::addressof(x)); }));
    r.push_back(guarded([&] { T const &x = std::move(v).ref<T>(); return W::ref(h, std::addressof(x)); }));
    r.push_back(guarded([&] { T &&x = std::move(v).rref<T>(); return W::ref(h, std::addressof(x)); }));
    r.push_back(guarded([&] { T const &x = v.cref<T>(); return W::ref(h, std::addressof(x)); }));
    r.push_back(guarded([&] { T const &x = cv.cref<T>(); return W::ref(h, std::addressof(x)); }));
    r.push_back(guarded([&] { T *p = v.data<T>(); return p ? W::ref(h, p) : Res{}; }));
    r.push_back(guarded([&] { T const *p = cv.data<T>(); return p ? W::ref(h, p) : Res{}; }));
    r.push_back(guarded([&] { T x = v.to<T>(); return W::value(h, x); }));
    r.push_back(guarded([&] { T x = cv.to<T>(); return W::value(h, x); }));
    is(v.canConvert<T>()); is(cv.canConvert<T>());
}

// meta_cast of every form from static type S
template<typename To, typename S, int CLS> void metas(int g, int d, int s, Subs const &subs, S *p) {
    auto row = [&](char const *op, int ss, Res const &r) {
        std::printf("{\"kind\":\"meta\",\"g\":%d,\"d\":%d,\"s\":%d,\"b\":%d,\"op\":\"%s\",\"res\":%s}\n", g, d, ss, CLS, op, list(r).c_str());
    };
    S const *cp = p;
    auto ptr = [&](To const *x) { return x ? match(subs, CLS, x) : Res{}; };
    static_assert(std::is_same_v<decltype(rtti::meta_cast<To>(p)), To*> && std::is_same_v<decltype(rtti::meta_cast<To>(cp)), To const*>);
    static_assert(std::is_same_v<decltype(rtti::meta_cast<To>(*p)), To&> && std::is_same_v<decltype(rtti::meta_cast<To>(*cp)), To const&>);
    row("ptr", s, guarded([&] { return ptr(rtti::meta_cast<To>(p)); }));
    row("const ptr", s, guarded([&] { return ptr(rtti::meta_cast<To>(cp)); }));
    auto bad = [&](auto &&f) { try { return match(subs, CLS, f()); } catch (rtti::bad_meta_cast const&) { return Res{}; } catch (...) { return Res{-1}; } };
    row("ref", s, bad([&] { return &rtti::meta_cast<To>(*p); }));
    row("const ref", s, bad([&] { return &rtti::meta_cast<To>(*cp); }));
    row("null", 0, guarded([&] { return ptr(rtti::meta_cast<To>(static_cast<S*>(nullptr))); }));
    row("const null", 0, guarded([&] { return ptr(rtti::meta_cast<To>(static_cast<S const*>(nullptr))); }));
}
template<typename T> int class_index(rtti::MetaClass const *c, T const &all) {
    if (!c) return 0;
    for (std::size_t i = 0; i < all.size(); ++i) if (c->metaTypeId() == all[i]) return int(i) + 1;
    return -1;
}
extern std::vector<std::vector<rtti::MetaType_ID>> class_ids;
