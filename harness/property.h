#pragma once
#include "invoke.h"
struct Counters { int gets = 0, sets = 0; bool throws = false, values = false; };
extern Counters counters;
extern std::vector<MetaProperty const*> properties;
// what getters and setters do
inline void got(bool value) { ++counters.gets; counters.values = value; }
template<typename P, typename T> void assign(T &to, std::remove_reference_t<P> &from) {
    ++counters.sets;
    if (counters.throws) throw Thrown{};
    int t = K<T>::get(from);
    if constexpr(!std::is_lvalue_reference_v<P>) K<T>::put(from, 0);
    K<T>::put(to, t);
}
#include "property_fields.h"
