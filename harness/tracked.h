// Objects which know their address and state, counted by the values they carry
#pragma once
#include <cstdint>
#include <cstring>
namespace tracked {
inline long live = 0;
inline bool bad = false;
struct Core {
    int tok; unsigned magic; Core *self;
    void birth(int t) { tok = t; magic = 0xA11CE5u; self = this; if (t) ++live; }
    void check() const { if (magic != 0xA11CE5u || self != this) bad = true; }
    int take() { check(); int t = tok; if (t) --live; tok = 0; return t; }
    int look() const { check(); return tok; }
    void death() { check(); if (tok) --live; magic = 0xDEADu; self = nullptr; tok = 0; }
    void put(int t) { take(); tok = t; if (t) ++live; }
};
}
