// Calls of metamethods: "call f by throws a1 a2 ..." / "set s t"; scripts separated by ---
#include "invoke.h"
#include <iostream>
#include <sstream>
#include <sys/wait.h>
#include <unistd.h>
Derived *pool; int ints[Pool];
std::vector<Slot*> slots; std::vector<Kind*> kinds; Call call; std::vector<MetaMethod const*> functions;
void makeSlots(); void makeFunctions();
// ------------------------------------------------------------------ converters
struct Stop {};
static std::string int2str(int x) { return text(x); }
static A str2A(std::string const &s) { int t = K<std::string>::get(s); if (t % 10 == 7) throw Stop{}; return A(t); }
static N A2N(A const &a, bool &ok) { ok = a.core.look() % 10 != 8; return N(a.core.look()); }
static int N2int(N const &n) { return n.core.look(); }
int main() {
    MetaType::registerConverter(&int2str); MetaType::registerConverter(&str2A); MetaType::registerConverter(&N2int);
    MetaType::registerConverter<A, N>(&A2N);
    auto g = global_define();
    g._namespace("inv")._class<A>("A")._end()._class<Base>("Base")._end()._class<Derived>("Derived")._base<Base>()._end();
    makeFunctions();
    makeSlots();
    auto storage = std::make_unique<std::aligned_storage_t<sizeof(Derived) * Pool, alignof(Derived)>>();
    pool = reinterpret_cast<Derived*>(storage.get());
    for (int i = 0; i < Pool; ++i) { new (&pool[i]) Derived(i); ints[i] = i; }
    std::vector<std::string> lines; std::string l; int done = 0;
    auto play = [&] {
        std::string out;
        long base = 0;
        for (std::size_t i = 0; i < slots.size(); ++i) slots[i]->reset(0);
        base = tracked::live;
        std::vector<int> toks(slots.size(), 0);
        for (auto const &line: lines) {
            std::istringstream is(line); std::string op; is >> op;
            std::string outcome = "ok", res = "[]";
            call = {};
            if (op == "set") { int s, t; is >> s >> t; slots[s - 1]->reset(t); toks[s - 1] = slots[s - 1]->tok(); }
            else {
                int f, thr, x; std::string by; std::vector<int> a; is >> f >> by >> thr; while (is >> x) a.push_back(x);
                call.throws = thr;
                auto const &m = *functions[f - 1];
                try {
                    variant r;
                    auto rest = [&](std::size_t k) { std::vector<argument> v; for (; k < a.size(); ++k) v.push_back(slots[a[k] - 1]->arg()); return v; };
                    if (by == "name") { auto v = rest(1); r = slots[a[0] - 1]->byName(m.name().substr(0, m.name().find('(')).c_str(), v); }
                    else if (!a.empty()) { auto v = rest(1); r = slots[a[0] - 1]->first(m, v); }
                    else { auto v = rest(0); r = apply<0>([&](auto &&...p) -> variant {
                            if constexpr(sizeof...(p) == 0) return m.invoke(); else return [](auto &&) -> variant { throw 0; }(0); }, v); }
                    if (r.empty()) res = "[[0,0,0,0]]";
                    else if (call.temp) {
                        // could be a reference to something gone: only its type is looked at
                        bool c = false; int k = 0; for (std::size_t i = 0; i < kinds.size(); ++i) if (kinds[i]->is(r, c)) { k = int(i) + 1; break; }
                        res = "[[" + std::to_string(k) + "," + std::to_string(c) + ",-1,0]]";
                    } else {
                        bool c = false; int k = 0, t = -1; void const *p = nullptr;
                        for (std::size_t i = 0; i < kinds.size(); ++i) if (kinds[i]->is(r, c)) { k = int(i) + 1; kinds[i]->show(r, t, p); break; }
                        res = "[[" + std::to_string(k) + "," + std::to_string(c) + "," + std::to_string(find(p)) + "," + std::to_string(t) + "]]";
                    }
                }
                catch (Thrown const &) { outcome = "thrown"; }
                catch (Stop const &) { outcome = "stopped"; }
                catch (rtti::runtime_error const &) { outcome = "refused"; }
                catch (std::exception const &) { outcome = "std"; }
                catch (...) { outcome = "other"; }
            }
            std::string seen, ch;
            for (auto &s: call.seen) seen += (seen.empty() ? "[" : ",[") + std::to_string(s.tok) + "," + std::to_string(s.where) + "]";
            for (std::size_t i = 0; i < slots.size(); ++i) { int t = slots[i]->tok(); if (t != toks[i]) { ch += (ch.empty() ? "[" : ",[") + std::to_string(i + 1) + "," + std::to_string(t) + "]"; toks[i] = t; } }
            out += (out.empty() ? "" : ",") + std::string("{\"out\":\"") + outcome + "\",\"times\":" + std::to_string(call.times) + ",\"seen\":[" + seen + "],\"res\":" + res +
                ",\"ch\":[" + ch + "],\"live\":" + std::to_string(tracked::live - base) + ",\"bad\":" + (tracked::bad ? "true" : "false") + "}";
        }
        std::printf("{\"ev\":[%s]}\n", out.c_str());
        std::fflush(stdout);
    };
    auto run = [&] {
        std::fflush(stdout);
        pid_t p = fork();
        if (!p) { play(); _exit(0); }
        int st = 0; waitpid(p, &st, 0);
        if (st) { std::printf("{\"crash\":%d}\n", st); std::fflush(stdout); }
        lines.clear(); ++done;
    };
    while (std::getline(std::cin, l)) if (l == "---") run(); else lines.push_back(l);
    return 0;
}
