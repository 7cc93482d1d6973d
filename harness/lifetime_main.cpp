#include "lifetime.h"
#include <fstream>
#include <sstream>
using namespace rtti;
namespace lt {
int live = 0; bool space = false, mayspace = true;
constexpr int SLOTS = 3;
static variant *slot(int s) { alignas(variant) static char mem[SLOTS][sizeof(variant)]; static bool made[SLOTS]; auto p = reinterpret_cast<variant*>(mem[s - 1]); if (!made[s - 1]) { new (p) variant; made[s - 1] = true; } return p; }
static bool defined[6];
// prints when everything else is gone: constructed first
struct Final { ~Final(); } static last __attribute__((init_priority(101)));
extern "C" { extern void *__dso_handle; int __cxa_atexit(void (*)(void*), void*, void*); }

void event(char const *op, int s, int k, int t, std::string const &r, int v) {
    std::printf("{\"o\":{\"op\":\"%s\",\"s\":%d,\"k\":%d,\"t\":%d},\"r\":\"%s\",\"v\":%d,\"live\":%d}\n", op, s, k, t, r.c_str(), v, live);
    std::fflush(stdout);
}
Steps steps(char const *who, int i) {
    Steps res;
    auto name = std::getenv("LT_SCRIPT");
    std::ifstream f(name ? name : "/dev/null"); std::string line;
    while (std::getline(f, line)) {
        std::istringstream is(line); std::string w; int n = 0; Step x;
        is >> w >> n >> x.op >> x.s >> x.k >> x.t;
        if (w == who && n == i) res.push_back(x);
    }
    return res;
}
static std::string text(int t) { return std::to_string(t) + " and something that does not fit"; }
static int num(std::string const &s) { return s.find(" and something that does not fit") == s.npos ? -1 : std::atoi(s.c_str()); }
template<typename T> struct tok { static int of(T const &x) { return x.c.get(); } static T make(int t) { return T(t); } };
template<> struct tok<std::string> { static int of(std::string const &s) { return num(s); } static std::string make(int t) { return text(t); } };
template<typename F> void with(int k, F &&f) {
    switch (k) {
        case 1: f((S1*)nullptr); break;
        case 2: f((B2*)nullptr); break;
        case 3: f((D3*)nullptr); break;
        case 4: f((std::string*)nullptr); break;
        case 5: f((L5*)nullptr); break;
    }
}
template<typename P> using T_ = std::remove_pointer_t<std::decay_t<P>>;
template<typename F> void withPair(int a, int b, F &&f) {
    if (a == 4 && b == 1) f((std::string*)nullptr, (S1*)nullptr);
    else if (a == 1 && b == 4) f((S1*)nullptr, (std::string*)nullptr);
    else if (a == 2 && b == 4) f((B2*)nullptr, (std::string*)nullptr);
    else if (a == 4 && b == 5) f((std::string*)nullptr, (L5*)nullptr);
}
static char const *names[] = {"", "lt::S1", "lt::B2", "lt::D3", "std::__cxx11::basic_string<char>", "lt::L5"};
static char const *yes(bool b) { return b ? "true" : "false"; }
static void perform(Step const &x) {
    std::string r = "ok"; int v = 0;
    try {
        auto &o = x.op;
        if (o == "glob" || o == "mark" || o == "inh" || o == "invoke" || o == "def") { if (!mayspace || (o == "def" && (defined[x.k] || (x.k == 3 && !defined[2])))) return; space = true; }
        if (o == "hold") with(x.k, [&](auto p) { using T = T_<decltype(p)>; *slot(x.s) = tok<T>::make(x.t); });
        else if (o == "copy") *slot(x.k) = static_cast<variant const&>(*slot(x.s));
        else if (o == "ctor") { variant c{static_cast<variant const&>(*slot(x.s))}; variant d{std::move(c)}; *slot(x.k) = std::move(d); }
        else if (o == "swap") std::swap(*slot(x.s), *slot(x.k));
        else if (o == "drop") slot(x.s)->clear();
        else if (o == "is") with(x.k, [&](auto p) { using T = T_<decltype(p)>; r = yes(slot(x.s)->is<T>()); });
        else if (o == "get") with(x.k, [&](auto p) { using T = T_<decltype(p)>; v = tok<T>::of(slot(x.s)->ref<T>()); });
        else if (o == "to") with(x.k, [&](auto p) { using T = T_<decltype(p)>; v = tok<T>::of(slot(x.s)->to<T>()); });
        else if (o == "can") with(x.k, [&](auto p) { using T = T_<decltype(p)>; r = yes(slot(x.s)->canConvert<T>()); });
        else if (o == "reg") withPair(x.s, x.k, [&](auto p, auto q) { using A = T_<decltype(p)>; using B = T_<decltype(q)>;
            if (x.t == 1) r = yes(MetaType::registerConverter<A, B>([](A const &a) { return tok<B>::make(tok<A>::of(a) + 10); }));
            else r = yes(MetaType::registerConverter<A, B>([](A const &a, bool &ok) { ok = true; return tok<B>::make(tok<A>::of(a) + 20); })); });
        else if (o == "unreg") withPair(x.s, x.k, [&](auto p, auto q) { using A = T_<decltype(p)>; using B = T_<decltype(q)>; MetaType::unregisterConverter<A, B>(); });
        else if (o == "has") withPair(x.s, x.k, [&](auto p, auto q) { using A = T_<decltype(p)>; using B = T_<decltype(q)>; r = yes(MetaType::hasConverter<A, B>()); });
        else if (o == "id") with(x.k, [&](auto p) { using T = T_<decltype(p)>; MetaType t{metaTypeId<T>()}; r = yes(t.valid());
            if (t.valid() && (t.typeSize() != sizeof(T) || !t.isClass())) r = "wrong"; });
        else if (o == "make") with(x.k, [&](auto p) { using T = T_<decltype(p)>; auto t = metaType<T>(); auto src = tok<T>::make(x.t); auto c = t.construct(&src);
            r = yes(c != nullptr); if (c) { v = tok<T>::of(*static_cast<T*>(c)); t.destruct(c); } });
        else if (o == "name") { with(x.k, [&](auto p) { using T = T_<decltype(p)>; MetaType t{names[x.k]}; r = yes(t.valid()); if (t.valid() && t.typeSize() != sizeof(T)) r = "wrong"; }); }
        else if (o == "def") {
            auto glob = global_define(); defined[x.k] = true;
            if (x.k == 1) glob._class<S1>("S1")._end();
            else if (x.k == 2) {
                if (x.t) glob._class<B2>("B2")._lazy([](meta_define<B2> c) { c._method("who", &B2::who)._attribute("mark", text(2)); })._end();
                else glob._class<B2>("B2")._method("who", &B2::who)._attribute("mark", text(2))._end();
            }
            else if (x.k == 3) {
                if (x.t) glob._class<D3>("D3")._lazy([](meta_define<D3> c) { c._base<B2>()._attribute("mark", text(3)); })._end();
                else glob._class<D3>("D3")._base<B2>()._attribute("mark", text(3))._end();
            }
        }
        else if (o == "cls") with(x.k, [&](auto p) { using T = T_<decltype(p)>; auto c = MetaClass::find(metaTypeId<T>()); r = yes(c != nullptr); if (c && c->name() != std::string(names[x.k]).substr(4)) r = "wrong"; });
        else if (o == "call") v = slot(x.s)->invoke("who").to<int>();
        else if (o == "meta") { D3 d{7}; auto p = meta_cast<B2>(&d); r = yes(p != nullptr); if (p && p != static_cast<B2*>(&d)) r = "wrong"; }
        else if (o == "glob") { auto c = MetaNamespace::global()->getClass(std::string(names[x.k]).substr(4)); r = yes(c != nullptr); if (c && c->category() != mcatClass) r = "wrong"; }
        else if (o == "mark") { auto c = MetaNamespace::global()->getClass(std::string(names[x.k]).substr(4)); r = "none"; if (c) { auto &a = c->attribute("mark"); if (!a.empty()) { v = num(a.to<std::string>()); r = "ok"; } } }
        else if (o == "inh") { auto c = MetaNamespace::global()->getClass("D3"); auto b = MetaNamespace::global()->getClass("B2");
            r = yes(c && b && c->inheritedFrom(b) && c->baseClassCount() == 1 && c->baseClass(std::size_t(0)) == b && c->getMethod("who")); }
        else if (o == "invoke") { auto c = MetaNamespace::global()->getClass("D3"); auto m = c ? c->getMethod("who") : nullptr; r = "none"; if (m) { D3 d{x.t}; v = m->invoke(std::ref(d)).to<int>(); r = "ok"; } }
        else std::abort();
    } catch (std::exception const&) { r = "refused"; v = 0; }
    event(x.op.c_str(), x.s, x.k, x.t, r, v);
}
void run(char const *who, int i) { for (auto &x: steps(who, i)) perform(x); }
Final::~Final() { for (int s = 1; s <= SLOTS; ++s) slot(s)->~variant(); event("end", 0, 0, 0, "ok", 0); }
}
int main() {
    using namespace lt;
    event("main", 0, 0, 0, "ok", 0);
    for (auto &x: steps("m", 0)) {
        // an object with static storage constructed now
        if (x.op == "new") { auto mem = std::malloc(sizeof(Object)); auto p = new (mem) Object(x.s); __cxa_atexit([](void *q) { static_cast<Object*>(q)->~Object(); std::free(q); }, p, &__dso_handle); }
        else perform(x);
    }
    event("return", 0, 0, 0, "ok", 0);
}
