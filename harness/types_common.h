#pragma once
#include <rtti/metatype.h>
#include <cstdio>
#include <cstring>
#include <sstream>
#include <string>
#include <vector>
#include <map>

namespace probe {
struct S { int x; };
struct Abs { virtual void f() = 0; virtual ~Abs() = default; };
struct Poly { virtual int f() { return 1; } virtual ~Poly() = default; std::string s; };
struct NoDef { NoDef(int); };
struct NoCopy { NoCopy() = default; NoCopy(NoCopy const&) = delete; NoCopy& operator=(NoCopy const&) = delete; };
struct MoveOnly { MoveOnly() = default; MoveOnly(MoveOnly&&) = default; MoveOnly& operator=(MoveOnly&&) = default; };
struct NoAssign { NoAssign() = default; NoAssign(NoAssign const&) = default; NoAssign& operator=(NoAssign const&) = delete; };
struct NoDtor { ~NoDtor() = delete; };
struct Eq { int x; bool operator==(Eq const& o) const { return x == o.x; } };
struct CopyAssignOnly { CopyAssignOnly() = default; CopyAssignOnly(CopyAssignOnly const&) = delete; CopyAssignOnly& operator=(CopyAssignOnly const&) = default; };
union U { int a; float b; };
enum E { e0 }; enum class EC : short { a };
template<typename A, typename B> struct Tpl { A a; B b; };
template<typename T, int N> struct Arr { T v[N]; };
class Private { int p; public: int q; };
struct Big { char d[1000]; };
namespace inner { struct S { long y; }; }
}

template<typename T> std::string pretty() {
    std::string s = __PRETTY_FUNCTION__;
    auto b = s.find("T = "); s = s.substr(b + 4);
    // ends with "]" or "; std::string = ...]"
    auto e = s.find("; std::");
    if (e == std::string::npos) e = s.rfind(']');
    return s.substr(0, e);
}

inline std::string jstr(std::string_view s) {
    std::string r = "\"";
    for (char c: s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if ((unsigned char)c < 32) r += '?'; else r += c; }
    return r + "\"";
}

template<typename B> std::string base_facts() {
    std::string r = "[";
    auto add = [&](bool v, char const *n) { if (v) { if (r.size() > 1) r += ","; r += jstr(n); } };
    add(std::is_member_pointer_v<B>, "MemberPointer");
    add(std::is_void_v<B>, "Void"); add(std::is_integral_v<B>, "Integral"); add(std::is_floating_point_v<B>, "FloatPoint");
    add(std::is_enum_v<B>, "Enum"); add(std::is_function_v<B>, "Function"); add(std::is_union_v<B>, "Union");
    add(std::is_class_v<B>, "Class"); add(std::is_standard_layout_v<B>, "StandardLayout"); add(std::is_trivial_v<B>, "Trivial");
    add(std::is_abstract_v<B>, "Abstract"); add(std::is_polymorphic_v<B>, "Polymorphic");
    add(std::is_default_constructible_v<B>, "DefaultConstructible"); add(std::is_copy_constructible_v<B>, "CopyConstructible");
    add(std::is_copy_assignable_v<B>, "CopyAssignable"); add(std::is_move_constructible_v<B>, "MoveConstructible");
    add(std::is_move_assignable_v<B>, "MoveAssignable"); add(std::is_destructible_v<B>, "Destructible");
    return r;
}
template<typename T, typename = void> struct my_eq: std::false_type {};
template<typename T> struct my_eq<T, std::void_t<decltype(std::declval<T>() == std::declval<T>())>>: std::true_type {};
template<typename B, bool V = std::is_void_v<B>> struct bsize { static constexpr size_t v = sizeof(B); };
template<typename B> struct bsize<B, true> { static constexpr size_t v = 0; };

struct Entry {
    rtti::MetaType (*get)();
    std::string (*pretty)();
    std::string (*facts)();
    std::size_t bsize;
    int decay;       // index of the decayed type
};
extern std::vector<Entry> entries;

template<typename T, typename B> struct Reg {
    static rtti::MetaType get() { return rtti::metaType<T>(); }
    static std::string name() { return pretty<T>(); }
    static std::string facts() {
        auto r = base_facts<B>();
        if constexpr(!std::is_void_v<B>) if (my_eq<B>::value) r += std::string(r.size() > 1 ? "," : "") + "\"EQ_Comparable\"";
        return r + "]";
    }
    static std::size_t size() { if constexpr(std::is_function_v<B>) return 0; else return bsize<B>::v; }
};
