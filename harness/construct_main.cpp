// Calls of metaconstructors: "call f by throws a1 a2 ...", "conv f g throws s" / "set s t"; scripts separated by ---
#include "construct.h"
#include <iostream>
#include <sstream>
#include <sys/wait.h>
#include <unistd.h>
Derived *pool; int ints[Pool];
std::vector<Slot*> slots; std::vector<Kind*> kinds; Call call; std::vector<MetaMethod const*> functions;
std::vector<MetaConstructor const*> ctors; std::vector<Class> classes; std::string tables;
void makeSlots(); void makeConstructors(); void makeSpecials();
struct Stop {};
static std::string int2str(int x) { return text(x); }
static A str2A(std::string const &s) { int t = K<std::string>::get(s); if (t % 10 == 7) throw Stop{}; return A(t); }
static N A2N(A const &a, bool &ok) { ok = a.core.look() % 10 != 8; return N(a.core.look()); }
static int N2int(N const &n) { return n.core.look(); }
int main() {
    MetaType::registerConverter(&int2str); MetaType::registerConverter(&str2A); MetaType::registerConverter(&N2int);
    MetaType::registerConverter<A, N>(&A2N);
    auto g = global_define();
    g._namespace("inv")._class<A>("A")._end()._class<Base>("Base")._end()._class<Derived>("Derived")._base<Base>()._end()._class<M>("M")._end()._class<N>("N")._end();
    makeSpecials();
    makeConstructors();
    makeSlots();
    auto storage = std::make_unique<std::aligned_storage_t<sizeof(Derived) * Pool, alignof(Derived)>>();
    pool = reinterpret_cast<Derived*>(storage.get());
    for (int i = 0; i < Pool; ++i) { new (&pool[i]) Derived(i); ints[i] = i; }
    std::printf("%s%s\n", tables.c_str(), "---");
    std::vector<std::string> lines; std::string l;
    auto play = [&] {
        std::string out;
        for (auto s: slots) s->reset(0);
        long base = tracked::live;
        std::vector<int> toks(slots.size(), 0);
        for (auto const &line: lines) {
            std::istringstream is(line); std::string op; is >> op;
            std::string outcome = "ok"; int k = 0, t = 0; bool can = false; long live = tracked::live;
            call = {};
            if (op == "set") { int s, t; is >> s >> t; slots[s - 1]->reset(t); toks[s - 1] = slots[s - 1]->tok(); live = tracked::live; }
            else try {
                if (op == "call") {
                    int f, thr, x; std::string by; std::vector<int> a; is >> f >> by >> thr; while (is >> x) a.push_back(x);
                    call.throws = thr;
                    auto const &m = *ctors[f - 1];
                    variant r;
                    std::vector<argument> v; for (std::size_t i = by == "direct" ? 1 : 0; i < a.size(); ++i) v.push_back(slots[a[i] - 1]->arg());
                    if (by == "direct") r = slots[a[0] - 1]->construct(m, v);
                    else r = apply<10>([&](auto &&...p) { return m.invoke(std::move(p)...); }, v);
                    for (auto &c: classes) if (c.is(r)) { k = c.number; t = c.tok(r); }
                    live = tracked::live;
                } else {
                    int f, g, thr, s; is >> f >> g >> thr >> s; call.throws = thr;
                    for (auto &c: classes) if (c.number == g) {
                        can = c.can(*slots[s - 1]->held());
                        t = c.to(*slots[s - 1]->held()); k = g; live = tracked::live + (t != 0);
                    }
                }
            }
            catch (Thrown const &) { outcome = "thrown"; live = tracked::live; }
            catch (Stop const &) { outcome = "stopped"; live = tracked::live; }
            catch (rtti::runtime_error const &) { outcome = "refused"; live = tracked::live; }
            catch (std::bad_cast const &) { outcome = "refused"; live = tracked::live; }
            catch (std::exception const &) { outcome = "std"; }
            catch (...) { outcome = "other"; }
            std::string seen, ch;
            for (auto &s: call.seen) seen += (seen.empty() ? "[" : ",[") + std::to_string(s.tok) + "," + std::to_string(s.where) + "]";
            for (std::size_t i = 0; i < slots.size(); ++i) { int t = slots[i]->tok(); if (t != toks[i]) { ch += (ch.empty() ? "[" : ",[") + std::to_string(i + 1) + "," + std::to_string(t) + "]"; toks[i] = t; } }
            out += (out.empty() ? "" : ",") + std::string("{\"out\":\"") + outcome + "\",\"times\":" + std::to_string(call.times) + ",\"seen\":[" + seen + "],\"res\":[" + std::to_string(k) + "," + std::to_string(t)
                + "],\"can\":" + (can ? "true" : "false") + ",\"ch\":[" + ch + "],\"live\":" + std::to_string(live - base) + ",\"bad\":" + (tracked::bad ? "true" : "false") + "}";
        }
        std::printf("{\"ev\":[%s]}\n", out.c_str());
        std::fflush(stdout);
    };
    while (std::getline(std::cin, l)) {
        if (l != "---") { lines.push_back(l); continue; }
        std::fflush(stdout);
        pid_t p = fork();
        if (!p) { play(); _exit(0); }
        int st = 0; waitpid(p, &st, 0);
        if (st) { std::printf("{\"crash\":%d}\n", st); std::fflush(stdout); }
        lines.clear();
    }
    return 0;
}
