#pragma once
#include "invoke.h"
extern std::vector<MetaConstructor const*> ctors;
// result of a constructor: number of the class and token, by class
struct Class { int number; bool (*is)(variant const &); int (*tok)(variant const &); bool (*can)(variant &); int (*to)(variant &); };
extern std::vector<Class> classes;
template<typename T> Class classOf(int n) {
    return {n, [](variant const &v) { return v.typeId() == metaTypeId<T>(); }, [](variant const &v) { return K<T>::get(v.cref<T>()); },
            [](variant &v) { return v.canConvert<T>(); }, [](variant &v) { T x = v.to<T>(); return K<T>::get(x); }};
}
struct Early {};                // made by a converter which was there before the constructor
extern std::string tables;     // one line for every record made while defining
// a table of lookups: add<Args...>(name)
template<typename T> struct Lookup {
    MetaClass const *c = MetaClass::find(metaTypeId<T>());
    std::string types, names;
    int index(MetaConstructor const *p) { for (std::size_t i = 0; p && i < c->constructorCount(); ++i) if (c->getConstructor(i) == p) return int(i) + 1; return 0; }
    template<typename ...A> void add(char const *name) {
        auto p = *name ? c->template getConstructor<A...>(name) : c->template getConstructor<A...>();
        types += (types.empty() ? "" : ",") + std::to_string(index(p));
        auto text = signature<A...>::get(*name ? name : "constructor");
        names += (names.empty() ? "" : ",") + std::to_string(p && p->name() == text ? index(c->getConstructor(std::string_view{text})) : 0);
    }
    ~Lookup() {
        int foreign = (c->template getConstructor<int, int, int, T>() ? 1 : 0) + (c->template getConstructor<T const&>() ? 1 : 0) + (c->template getConstructor<T&&>() ? 1 : 0)
            + (c->template getConstructor<>() ? 1 : 0) + (c->template getConstructor<T&, int>("make") ? 1 : 0);
        tables += "{\"kind\":\"lookup\",\"n\":" + std::to_string(c->constructorCount()) + ",\"byType\":[" + types + "],\"byName\":[" + names + "],\"special\":[" + std::to_string(index(c->defaultConstructor()))
            + "," + std::to_string(index(c->copyConstructor())) + "," + std::to_string(index(c->moveConstructor())) + "],\"foreign\":" + std::to_string(foreign) + "}\n";
    }
};
// ------------------------------------------------------------------ special members
struct CopyOnly { CopyOnly() = default; CopyOnly(CopyOnly const&) = default; CopyOnly(CopyOnly&&) = delete; };
struct Tag {};
template<typename S, bool Storable> struct Specials {
    // a copy of the source is what is looked at, so that sources needn't be storable
    std::string got;
    MetaClass const *c = MetaClass::find(metaTypeId<S>());
    template<typename F> void attempt(char const *w, MetaConstructor const *m, F &&f) {
        long base = tracked::live;
        std::string out = "none"; int t = 0, src = 9; long live = 0;
        {
            std::unique_ptr<S> a{S::source(9)}, b{S::source(9)};
            if (!a) return;
            long before = tracked::live;
            if (m) {
                try { variant r = f(*m, *a, *b, src); out = "ok"; if (r.typeId() != metaTypeId<S>()) out = "type"; else { t = r.cref<S>().v.core.look(); if (&r.cref<S>() == a.get()) out = "alias"; }
                      if (src != -1) src = a->v.core.look(); else src = 9; live = tracked::live - before; }
                catch (rtti::runtime_error const &) { out = "refused"; src = a->v.core.look(); live = tracked::live - before; }
                catch (std::exception const &) { out = "std"; }
                catch (...) { out = "other"; }
            }
        }
        if (tracked::live != base) live = 99;
        got += (got.empty() ? "" : ",") + std::string("{\"w\":\"") + w + "\",\"out\":\"" + out + "\",\"t\":" + std::to_string(t) + ",\"src\":" + std::to_string(src) + ",\"live\":" + std::to_string(live) + "}";
    }
    void run(std::string const &head) {
        auto d = c->defaultConstructor(), k = c->copyConstructor(), m = c->moveConstructor();
        using C = MetaConstructor const &;
        if constexpr(Storable) {
            attempt("default", d, [](C c, S &, S &, int &) { return c.invoke(); });
            attempt("default 1", d, [](C c, S &, S &, int &) { return c.invoke(1); });
            attempt("copy", k, [](C c, S &a, S &, int &) { return c.invoke(a); });
            attempt("copy const", k, [](C c, S &a, S &, int &) { return c.invoke(const_cast<S const&>(a)); });
            attempt("copy rvalue", k, [](C c, S &a, S &, int &) { return c.invoke(std::move(a)); });
            attempt("copy variant", k, [](C c, S &a, S &, int &) { variant v = std::ref(a); return c.invoke(v); });
            attempt("copy 0", k, [](C c, S &, S &, int &) { return c.invoke(); });
            attempt("copy 2", k, [](C c, S &a, S &b, int &) { return c.invoke(a, b); });
            attempt("copy int", k, [](C c, S &, S &, int &) { return c.invoke(42); });
            attempt("move", m, [](C c, S &a, S &, int &) { return c.invoke(std::move(a)); });
            attempt("move variant", m, [](C c, S &a, S &, int &) { variant v = std::ref(a); return c.invoke(std::move(v)); });
            attempt("move 0", m, [](C c, S &, S &, int &) { return c.invoke(); });
            attempt("move 2", m, [](C c, S &a, S &b, int &) { return c.invoke(std::move(a), std::move(b)); });
            attempt("move int", m, [](C c, S &, S &, int &) { return c.invoke(42); });
            attempt("move lvalue", m, [](C c, S &a, S &, int &) { return c.invoke(a); });
            attempt("move lvalue variant", m, [](C c, S &a, S &, int &) { variant v = std::ref(a); return c.invoke(v); });
        }
        tables += "{\"kind\":\"specials\"," + head + ",\"flags\":[" + (std::is_default_constructible_v<S> ? "true" : "false") + "," + (std::is_copy_constructible_v<S> ? "true" : "false") + ","
            + (std::is_move_constructible_v<S> ? "true" : "false") + "],\"has\":[" + (d ? "true" : "false") + "," + (k ? "true" : "false") + "," + (m ? "true" : "false") + "],\"n\":"
            + std::to_string(c->constructorCount()) + ",\"got\":[" + got + "],\"bad\":" + (tracked::bad ? "true" : "false") + "}\n";
    }
};
