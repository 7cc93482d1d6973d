// Properties: "set s t", "poke o k t", "get p by s", "put p by s v thr" (s = 0: without an instance); scripts separated by ---
#include "property.h"
#include <iostream>
#include <sstream>
#include <sys/wait.h>
#include <unistd.h>
Derived *pool; int ints[Pool];
std::vector<Slot*> slots; std::vector<Kind*> kinds; Call call; std::vector<MetaMethod const*> functions;
std::vector<MetaProperty const*> properties; Counters counters;
void makeSlots(); void makeProperties();
struct Stop {};
static std::string int2str(int x) { return text(x); }
static A str2A(std::string const &s) { int t = K<std::string>::get(s); if (t % 10 == 7) throw Stop{}; return A(t); }
static N A2N(A const &a, bool &ok) { ok = a.core.look() % 10 != 8; return N(a.core.look()); }
static int N2int(N const &n) { return n.core.look(); }
// what belongs to object number o: class of it and its address; 0 - static variables, 1000 + i - pool[i]
static std::vector<int> classOf;     // of every slot
static void *address(int o) { return o >= 1000 ? static_cast<void*>(&pool[o - 1000]) : o ? slots[o - 1]->object() : nullptr; }
static int kindOf(int o) { return o >= 1000 ? 5 : o ? classOf[o - 1] : 0; }
template<typename F> auto store(int o, int k, F &&f) {
    switch (kindOf(o)) {
        case 3: return A_store(*static_cast<A*>(address(o)), k, f);
        case 4: return Base_store(*static_cast<Base*>(address(o)), k, f);
        case 5: return Derived_store(*static_cast<Derived*>(address(o)), k, f);
        default: return static_store(k, f);
    }
}
static int stores(int o) { switch (kindOf(o)) { case 3: return A_stores; case 4: return Base_stores; case 5: return Derived_stores; default: return static_stores; } }
int main(int argc, char **argv) {
    MetaType::registerConverter(&int2str); MetaType::registerConverter(&str2A); MetaType::registerConverter(&N2int);
    MetaType::registerConverter<A, N>(&A2N);
    auto g = global_define();
    g._namespace("inv")._class<A>("A")._end()._class<Base>("Base")._end()._class<Derived>("Derived")._base<Base>()._end();
    makeProperties();
    makeSlots();
    { std::istringstream is(argv[1]); int c; while (is >> c) classOf.push_back(c); }
    auto storage = std::make_unique<std::aligned_storage_t<sizeof(Derived) * Pool, alignof(Derived)>>();
    pool = reinterpret_cast<Derived*>(storage.get());
    for (int i = 0; i < Pool; ++i) { new (&pool[i]) Derived(i); ints[i] = i; }
    std::vector<int> objects = {0, 1000, 1001, 1002};
    for (std::size_t i = 0; i < classOf.size(); ++i) if (classOf[i] >= 3 && classOf[i] <= 5) objects.push_back(int(i) + 1);
    std::vector<std::string> lines; std::string l;
    auto play = [&] {
        std::string out;
        for (auto s: slots) s->reset(0);
        long base = tracked::live;
        std::vector<int> toks(slots.size(), 0);
        std::vector<std::vector<int>> last;
        auto look = [](auto const &x) { return K<std::decay_t<decltype(x)>>::get(x); };
        for (auto o: objects) { last.emplace_back(); for (int k = 1; k <= stores(o); ++k) last.back().push_back(store(o, k, look)); }
        auto where = [&](void const *p) {
            for (auto o: objects) for (int k = 1; k <= stores(o); ++k) {
                bool hit = false; store(o, k, [&](auto const &x) { hit = static_cast<void const*>(&x) == p; return 0; });
                if (hit) return o * 100 + k + 1; }
            return 0; };
        for (auto const &line: lines) {
            std::istringstream is(line); std::string op, by; is >> op;
            std::string outcome = "ok", res = "[]";
            counters = {};
            if (op == "set") { int s, t; is >> s >> t; slots[s - 1]->reset(t); toks[s - 1] = slots[s - 1]->tok(); }
            else if (op == "poke") { int o, k, t; is >> o >> k >> t; store(o, k, [&](auto const &x) { using X = std::decay_t<decltype(x)>; K<X>::put(const_cast<X&>(x), t); return 0; }); }
            else {
                int p, s, v, thr; is >> p >> by >> s;
                auto const &m = *properties[p - 1];
                try {
                    if (op == "get") {
                        variant r = by == "name" ? slots[s - 1]->getByName(m.name().c_str()) : s ? slots[s - 1]->getProp(m) : m.get();
                        bool c = false; int k = 0, t = -1; void const *a = nullptr;
                        bool gone = s && by != "name" && classOf[s - 1] >= 0 && slots[s - 1]->temporary();
                        for (std::size_t i = 0; i < kinds.size(); ++i) if (kinds[i]->is(r, c)) { k = int(i) + 1; if (!gone || counters.values) kinds[i]->show(r, t, a); break; }
                        int w = gone && !counters.values ? -1 : where(a);
                        res = "[[" + std::to_string(k) + "," + std::to_string(c) + "," + std::to_string(w) + "," + std::to_string(w == -1 ? 0 : t) + "]]";
                    } else {
                        is >> v >> thr; counters.throws = thr;
                        auto a = slots[v - 1]->arg();
                        if (by == "name") slots[s - 1]->setByName(m.name().c_str(), std::move(a)); else if (s) slots[s - 1]->setProp(m, std::move(a)); else m.set(std::move(a));
                    }
                }
                catch (Thrown const &) { outcome = "thrown"; }
                catch (Stop const &) { outcome = "stopped"; }
                catch (rtti::runtime_error const &) { outcome = "refused"; }
                catch (std::exception const &) { outcome = "std"; }
                catch (...) { outcome = "other"; }
            }
            std::string st, ch;
            for (std::size_t i = 0; i < objects.size(); ++i) for (int k = 1; k <= stores(objects[i]); ++k) {
                int t = store(objects[i], k, look);
                if (t != last[i][k - 1]) { st += (st.empty() ? "[" : ",[") + std::to_string(objects[i]) + "," + std::to_string(k) + "," + std::to_string(t) + "]"; last[i][k - 1] = t; } }
            for (std::size_t i = 0; i < slots.size(); ++i) { int t = slots[i]->tok(); if (t != toks[i]) { ch += (ch.empty() ? "[" : ",[") + std::to_string(i + 1) + "," + std::to_string(t) + "]"; toks[i] = t; } }
            out += (out.empty() ? "" : ",") + std::string("{\"out\":\"") + outcome + "\",\"gets\":" + std::to_string(counters.gets) + ",\"sets\":" + std::to_string(counters.sets) +
                ",\"res\":" + res + ",\"st\":[" + st + "],\"ch\":[" + ch + "],\"live\":" + std::to_string(tracked::live - base) + ",\"bad\":" + (tracked::bad ? "true" : "false") + "}";
        }
        std::printf("{\"ev\":[%s]}\n", out.c_str());
        std::fflush(stdout);
    };
    while (std::getline(std::cin, l)) {
        if (l != "---") { lines.push_back(l); continue; }
        std::fflush(stdout);
        pid_t p = fork();
        if (!p) { play(); _exit(0); }
        int st = 0; waitpid(p, &st, 0);
        if (st) { std::printf("{\"crash\":%d}\n", st); std::fflush(stdout); }
        lines.clear();
    }
    return 0;
}
