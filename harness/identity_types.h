#pragma once
#include <rtti/metatype.h>
#include <string>
namespace ident {
template<int N> struct Tag { int v; };
struct X0 { int v; }; struct X1 { virtual ~X1() = default; }; enum X2 { x2 }; union X3 { int a; }; struct X4 {}; class X5 { int p; };
namespace deep { struct X0 { char c; }; struct X6 {}; }
template<typename T> struct W { T v; };
using F7 = void(X0, X1 const&);
}
// every module has its own copy of this code
template<typename T> struct Way {
    static std::size_t ask(int way) {
        switch (way % 3) {
        case 0: return rtti::metaType<T>().typeId().value();
        case 1: return rtti::metaTypeId<T>().value();
        default: return rtti::MetaType{rtti::metaTypeId<T>()}.typeId().value();
        }
    }
    static std::string name() { std::string s = __PRETTY_FUNCTION__; auto b = s.find("T = ") + 4; auto e = s.find("; std::"); if (e == s.npos) e = s.rfind(']'); return s.substr(b, e - b); }
};
struct Item { std::size_t (*ask)(int); std::string (*name)(); int base; };
#define ONE(b, ...) {&Way<__VA_ARGS__>::ask, [] { return NAME<__VA_ARGS__>(); }, b}
template<typename T> std::string NAME() { std::string s = __PRETTY_FUNCTION__; auto b = s.find("T = ") + 4; auto e = s.find("; std::"); if (e == s.npos) e = s.rfind(']'); return s.substr(b, e - b); }
#define FAM(b, ...) ONE(b, __VA_ARGS__), ONE(b, __VA_ARGS__ const), ONE(b, __VA_ARGS__*), ONE(b, __VA_ARGS__ const*), ONE(b, __VA_ARGS__&), \
    ONE(b, __VA_ARGS__ const&), ONE(b, __VA_ARGS__&&), ONE(b, __VA_ARGS__[2]), ONE(b, __VA_ARGS__[3])
static Item const items[] = {
    ONE(1, ident::X0), ONE(1, ident::X0*), ONE(2, ident::X1 const&), ONE(2, ident::X1), ONE(3, ident::W<ident::X4>),
    FAM(4, ident::X2), FAM(5, ident::X3), FAM(6, ident::X4), FAM(7, ident::X5), FAM(8, ident::deep::X0), FAM(9, ident::deep::X6),
    FAM(10, ident::W<ident::X0>), FAM(11, ident::W<ident::deep::X0>), FAM(12, ident::Tag<1>), FAM(13, ident::Tag<2>), FAM(14, ident::Tag<-1>),
    ONE(15, ident::F7*), ONE(16, ident::W<ident::W<ident::X5>>), ONE(17, int ident::X4::*), ONE(18, void (ident::X4::*)() const), ONE(18, void (ident::X4::*)()),
};
extern "C" __attribute__((visibility("default"))) std::size_t ENTRY(int op, int t, int way) {
    if (op == 0) return items[t].ask(way);
    return rtti::MetaType{items[t].name()}.typeId().value();
}
