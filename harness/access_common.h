#pragma once
#include <rtti/variant.h>
#include <cstdio>
#include <cstring>
#include <string>
#include <utility>
#include <vector>
template<typename T> using P = T*;
template<typename T, int N> using A = T[N];
struct Big { long d[6]; };
struct Fill { unsigned char b[512]; };

// what is held and where it is
struct Held {
    rtti::variant v;
    void const *addr = nullptr;     // address of the object (first element of array)
    bool array = false;
    std::size_t size = 0;
    std::vector<unsigned char> content;
    void *extra = nullptr;
};
using Ask = void (*)(Held &, int *res);
struct Asker { Ask f; };
extern std::vector<Asker> askers;
using Maker = void (*)(Held &);
extern std::vector<Maker> makers;

// result of a reference-like access to T
template<typename T> int where(Held const &h, T const volatile *p_) {
    void const *p = const_cast<void const*>(static_cast<void const volatile*>(p_));
    if (!h.array || std::is_array_v<T>) return p == h.addr ? 1 : 2;
    // array seen as pointer: reference to a pointer to its first element
    return *static_cast<void *const *>(p) == h.addr ? 1 : 2;
}
template<typename F> int guarded(F &&f) {
    try { return f(); }
    catch (rtti::bad_cast const &) { return 0; }
    catch (...) { return 2; }
}
template<typename T> void ask(Held &h, int *r) {
    using rtti::variant;
    auto &v = h.v; auto const &cv = h.v;
    r[0] = v.is<T>(); r[1] = cv.is<T>();
    r[2] = v.is<T&>(); r[3] = cv.is<T&>();
    r[4] = v.is<T&&>(); r[5] = cv.is<T&&>();
    r[6] = guarded([&] { T &x = v.ref<T>(); return where<T>(h, std::addressof(x)); });
    r[7] = guarded([&] { T const &x = cv.ref<T>(); return where<T>(h, std::addressof(x)); });
    r[8] = guarded([&] { T const &x = std::move(v).ref<T>(); return where<T>(h, std::addressof(x)); });
    r[9] = guarded([&] { T &&x = std::move(v).rref<T>(); return where<T>(h, std::addressof(x)); });
    r[10] = guarded([&] { T const &x = v.cref<T>(); return where<T>(h, std::addressof(x)); });
    r[11] = guarded([&] { T const &x = cv.cref<T>(); return where<T>(h, std::addressof(x)); });
    r[12] = guarded([&] { T *p = v.data<T>(); return p ? where<T>(h, p) : 0; });
    r[13] = guarded([&] { T const *p = cv.data<T>(); return p ? where<T>(h, p) : 0; });
    if constexpr(std::is_array_v<T>) r[14] = r[15] = r[16] = r[17] = -1;
    else {
        auto same = [&](auto x) { 
            if (h.array) { void const *p; std::memcpy(&p, &x, sizeof p); return p == h.addr ? 1 : 2; }
            return sizeof(x) == h.size && !std::memcmp(&x, h.content.data(), h.size) ? 1 : 2;
        };
        r[14] = guarded([&] { return same(v.to<T>()); });
        r[15] = guarded([&] { return same(cv.to<T>()); });
        r[16] = v.canConvert<T>(); r[17] = cv.canConvert<T>();
    }
}
template<typename T> void *fresh(Held &h) {
    static std::vector<Fill*> keep;
    auto b = new Fill; keep.push_back(b);
    static_assert(sizeof(T) <= sizeof(Fill));
    static unsigned char seed = 1;
    for (auto &x: b->b) x = seed += 7;
    h.size = sizeof(T); h.array = std::is_array_v<T>;
    h.content.assign(b->b, b->b + sizeof(T));
    return b;
}
// by reference
template<typename T> void make_ref(Held &h) {
    auto &o = *static_cast<T*>(fresh<T>(h));
    h.v = std::ref(o); h.addr = &o;
}
// by value, copied (0) or moved (1) in
template<typename T, int move> void make_val(Held &h) {
    auto &o = *static_cast<T*>(fresh<T>(h));
    if constexpr(move) h.v = rtti::variant{static_cast<T&&>(o)}; else h.v = rtti::variant{o};
    using U = std::remove_cv_t<T>;
    h.addr = &h.v.template ref<U>();
    if (h.addr == static_cast<void const*>(&o) || std::memcmp(h.addr, h.content.data(), sizeof(T))) h.addr = "wrong";
}
