// Programs of several threads on the real registry. With FREE_RUNNING threads really run in parallel and nothing
// is recorded: then it is up to ThreadSanitizer to watch.
#define CONCURRENT
#include "registry.h"
#include "control.h"
#include <atomic>
#include <iostream>
#include <set>
#include <sys/wait.h>
#include <thread>
#include <unistd.h>
Log journal;
std::vector<std::vector<Op>> lazies;
int statics[4] = {0, 1, 2, 3};
static std::map<std::string, void const*> seen_items;
static std::map<std::pair<void const*, std::string>, variant const*> seen_values;
static std::map<std::string, void const*> seen_containers;
std::string quote(std::string_view s) { std::string r = "\""; for (char c: s) { if (c == '"' || c == '\\') r += '\\'; r += c; } return r + '"'; }
static MetaType_ID class_ids[6];
int class_no(MetaClass const *c) {
    for (int k = 1; k <= 5; ++k) if (c && c->metaTypeId() == class_ids[k]) return k;
    return 0;
}
std::string classify() {
    try { throw; }
    catch (Script_thrown&) { return "thrown"; }
    catch (duplicate_metaclass&) { return "duplicate"; }
    catch (unregistered_metaclass&) { return "unregistered"; }
    catch (definition_error&) { return "definition"; }
    catch (runtime_error &e) { return "runtime"; }
    catch (std::exception &e) { return std::string("std: ") + e.what(); }
    catch (...) { return "unknown"; }
}
static std::string num(long x) { return std::to_string(x); }
static std::string ref(MetaContainer const *c) {
    if (!c) return "";
    auto n = c->owner() ? c->qualifiedName() : "global";
#ifndef FREE_RUNNING
    auto r = seen_containers.emplace(n + (c->category() == mcatClass ? "/c" : "/n"), c);
    if (r.first->second != c) return n + " (another object)";
#endif
    return n;
}
static std::string owner_json(MetaContainer const *c) { return quote(ref(c)); }
#include "registry_obs.h"

// types nobody else mentions
template<int> struct Fresh { int x; };
static MetaType_ID fresh(int j) {
    switch (j) { case 1: return metaTypeId<Fresh<1>>(); case 2: return metaTypeId<Fresh<2>>(); case 3: return metaTypeId<Fresh<3>>();
                 case 4: return metaTypeId<Fresh<1> const&>(); case 5: return metaTypeId<Fresh<2> const&>(); case 6: return metaTypeId<Fresh<3> const&>(); }
    return MetaType_ID{};
}
static std::string_view fresh_name(int j) {
    switch (j) { case 1: return type_name<Fresh<1>>(); case 2: return type_name<Fresh<2>>(); case 3: return type_name<Fresh<3>>();
                 case 4: return type_name<Fresh<1> const&>(); case 5: return type_name<Fresh<2> const&>(); case 6: return type_name<Fresh<3> const&>(); }
    return {};
}
static std::vector<MetaType_ID> type_ids;
static int type_token(MetaType_ID id) {
    if (!MetaType{id}.valid()) return 0;
    for (std::size_t i = 0; i < type_ids.size(); ++i) if (type_ids[i] == id) return int(i) + 1;
    type_ids.push_back(id);
    return int(type_ids.size());
}
// converters
template<int> struct From { int x = 0; };
template<int> struct To { int id = 0; };
template<int P, int I> static To<P> conv(From<P> const&) { return To<P>{I}; }
template<int P> static bool creg(int id) {
    using F = To<P>(*)(From<P> const&);
    F const f[] = {&conv<P, 1>, &conv<P, 2>, &conv<P, 3>, &conv<P, 4>};
    return MetaType::registerConverter(f[id - 1]);
}
template<int P> static int cuse() {
    variant v{From<P>{}};
    try { return v.to<To<P>>().id; } catch (bad_variant_cast&) { return 0; }
}

struct Event { char const *e; int t; std::string o, out; std::vector<std::string> res; std::string c; int i; MetaItem const *item = nullptr; };
static std::vector<Event> events;
#ifdef FREE_RUNNING
static thread_local int who = 0;
static int thread_no() { return who; }
static void note(Event const&) {}
static void note_ret(std::string const&, std::vector<std::string> const&, MetaItem const*) {}
#else
static int outside = 1;
static int thread_no() { return sched::self() < 0 ? outside : sched::self() + 2; }
static void note(Event const &e) { sched::Allow a{false}; events.push_back(e); }
static void note_ret(std::string const &out, std::vector<std::string> const &res, MetaItem const *item) {
    events.push_back({"ret", thread_no(), "", out, res, "", 0, item});
}
#endif
static thread_local Stack *current = nullptr;
static bool is_query(std::string const &op) {
    static std::set<std::string> const s{"find", "methodBy", "propBy", "inherits", "force", "obs", "each", "creg", "cunreg", "chas", "cuse", "type", "tname"};
    return s.count(op);
}
static bool exec(Op const &o, bool swallow);
static void query(Op const &o, std::vector<std::string> &res, MetaItem const *&item) {
    auto add = [&](std::string const &s) { res.push_back(s); };
    auto const &w = o.op;
    auto pairs = [&](auto f) { if (o.a == 1) f(std::integral_constant<int, 1>{}); else f(std::integral_constant<int, 2>{}); };
    if (w == "find") { auto c = MetaClass::find(class_ids[o.a]); sched::Allow n{false}; add(ref(c)); return; }
    if (w == "creg") { pairs([&](auto p) { add(creg<decltype(p)::value>(o.b) ? "1" : "0"); }); return; }
    if (w == "cunreg") { pairs([&](auto p) { MetaType::unregisterConverter<From<decltype(p)::value>, To<decltype(p)::value>>(); }); return; }
    if (w == "chas") { pairs([&](auto p) { add(MetaType::hasConverter<From<decltype(p)::value>, To<decltype(p)::value>>() ? "1" : "0"); }); return; }
    if (w == "cuse") { pairs([&](auto p) { add(num(cuse<decltype(p)::value>())); }); return; }
#ifdef FREE_RUNNING
    if (w == "type") { auto id = fresh(o.a); if (MetaType{id}.typeSize() != 4) std::abort(); return; }
    if (w == "tname") { MetaType t{fresh_name(o.a)}; if (t.valid() && t.typeSize() != 4) std::abort(); return; }
#else
    if (w == "type") { auto id = fresh(o.a); sched::Allow n{false}; add(num(type_token(id))); return; }
    if (w == "tname") { auto id = MetaType{fresh_name(o.a)}.typeId(); sched::Allow n{false}; add(num(type_token(id))); return; }
#endif
    MetaContainer const *c = current->back()->self;
    if (o.a) { c = MetaClass::find(class_ids[o.a]); if (!c) { add("null"); return; } }
    auto k = c->category() == mcatClass ? static_cast<MetaClass const*>(c) : nullptr;
    auto member = [&](MetaItem const *i) { if (i) { sched::Allow n{false}; add(ref(i->owner())); add(i->name()); item = i; } };
    if (w == "methodBy") member(c->getMethod(o.n));
    else if (w == "propBy") member(c->getProperty(o.n));
    else if (w == "inherits") { if (k) { auto b = MetaClass::find(class_ids[o.b]); add(b ? k->inheritedFrom(b) ? "1" : "0" : "null"); } }
    else if (w == "force") c->forceDeferredDefine(MetaContainer::ForceDeferred::Recursive);
    else if (w == "obs") observe(c, k, o, res);
    else if (w == "each") {
        auto f = [&](std::string_view name) {
            sched::Allow n{false};
            note({"item", thread_no(), "", "", {std::string(name)}, "", 0});
            if (o.b) for (auto const &x: lazies[o.b - 1]) exec(x, true);
            return true;
        };
        if (o.m == "class") c->for_each_class([&](auto x) { return f(x->name()); });
        else if (o.m == "method") c->for_each_method([&](auto x) { return f(x->name()); });
        else c->for_each_attribute([&](std::string_view x, variant const&) { return f(x); });
    } else std::abort();
}
static bool exec(Op const &o, bool swallow) {
    note({"call", thread_no(), o.text, "", {}, "", 0});
    std::vector<std::string> res; MetaItem const *item = nullptr;
    try {
        sched::Allow a{true};
        if (is_query(o.op)) query(o, res, item); else current->back()->run(o, *current);
    } catch (...) { note_ret(classify(), {}, nullptr); if (!swallow) throw; return false; }
    note_ret("ok", res, item);
    return true;
}
std::string lazy_begin(int i, MetaContainer const *self) { note({"run", thread_no(), "", "", {}, ref(self), i}); return {}; }
void lazy_end(int i, MetaContainer const *self, std::string const &out) { note({"end", thread_no(), "", out, {}, ref(self), i}); }
void run_ops(int i, Stack &stack) {
    sched::Allow n{false};
    struct Swap { Stack *old; Swap(Stack *s): old(current) { current = s; } ~Swap() { current = old; } } swap{&stack};
    for (auto const &o: lazies[i - 1]) exec(o, false);
}
static void all(MetaContainer const *c, std::string &out, int depth = 0) {
    if (depth > 12) return;
    out += (out.empty() ? "" : ",") + dump(c);
    for (std::size_t i = 0, n = c->namespaceCount(); i < n; ++i) all(c->getNamespace(i), out, depth + 1);
    for (std::size_t i = 0, n = c->classCount(); i < n; ++i) all(c->getClass(i), out, depth + 1);
}
struct Program { std::vector<Op> main; std::vector<std::vector<Op>> threads; };
static std::string execute(Program const &p, sched::Config const &cfg) {
    class_ids[1] = metaTypeId<K1>(); class_ids[2] = metaTypeId<K2>(); class_ids[3] = metaTypeId<K3>(); class_ids[4] = metaTypeId<K4>(); class_ids[5] = metaTypeId<K5>();
    auto glob = rtti::global_define();
    auto run_thread = [](std::vector<Op> const &ops) {
        auto g = rtti::global_define();
        Stack stack;
        stack.push_back(std::make_unique<Def<void, void, 0>>(g, MetaNamespace::global()));
        current = &stack;
        bool ok = true;
        for (auto const &o: ops) ok = exec(o, true);
        current = nullptr;
        return ok;
    };
    run_thread(p.main);
#ifdef FREE_RUNNING
    std::atomic<int> ready{0}; std::vector<std::thread> ts;
    for (auto &t: p.threads) ts.emplace_back([&] { ++ready; while (ready < int(p.threads.size())) {} run_thread(t); });
    for (auto &t: ts) t.join();
#else
    std::vector<std::function<void()>> fs;
    for (auto &t: p.threads) fs.push_back([&] { run_thread(t); });
    sched::run(cfg, fs);
    outside = int(fs.size()) + 2;
#endif
    Op force{"force", 0, 0, "", "", {}, R"({"op":"force","a":0,"b":0,"n":"","m":"","l":[]})"};
    for (int i = 0; i < 40 && !run_thread({force}); ++i) {}     // an exception of one definition leaves the others
    std::string looks;
    all(MetaNamespace::global(), looks);
    std::string ev;
    for (auto &e: events) {
        if (e.item) e.res.push_back(num(e.item->category() == mcatMethod ? method_id(static_cast<MetaMethod const*>(e.item)) : prop_id(static_cast<MetaProperty const*>(e.item))));
        ev += (ev.empty() ? "" : ",") + std::string("{\"e\":\"") + e.e + "\",\"t\":" + num(e.t) + ",\"o\":" + (e.o.empty() ? "0" : e.o) + ",\"out\":" + quote(e.out)
            + ",\"res\":" + list(e.res.size(), [&](auto i) { return quote(e.res[i]); }) + ",\"c\":" + quote(e.c) + ",\"i\":" + num(e.i) + ",\"looks\":[]}";
    }
    return "[" + ev + ",{\"e\":\"final\",\"t\":1,\"o\":0,\"out\":\"\",\"res\":[],\"c\":\"\",\"i\":0,\"looks\":[" + looks + "]}]";
}
// input: lines "op a b n m l,l json"; "lazy-body", "main", "thread" start sections; "run mode count seed p changes fine": does it
static Op parse(std::string const &line) {
    Op o; std::vector<std::string> f; std::size_t p = 0;
    for (int i = 0; i < 6; ++i) { auto q = line.find('\t', p); f.push_back(line.substr(p, q - p)); p = q + 1; }
    o.op = f[0]; o.a = std::stoi(f[1]); o.b = std::stoi(f[2]); o.n = f[3]; o.m = f[4]; o.text = line.substr(p);
    std::stringstream s(f[5]); std::string x;
    while (std::getline(s, x, ',')) o.l.push_back(std::stoi(x));
    return o;
}
static void put(int fd, std::string const &s) { for (std::size_t i = 0; i < s.size();) { auto n = ::write(fd, s.data() + i, s.size() - i); if (n <= 0) return; i += std::size_t(n); } }
struct Outcome { std::string kind, text; std::vector<sched::Choice> choices; };
static Outcome once(Program const &p, sched::Config const &cfg) {
    int fd[2]; if (pipe(fd)) std::abort();
    std::fflush(stdout);
    auto pid = fork();
    if (pid == 0) {
        close(fd[0]);
        alarm(20);
        auto ch = [&] { std::string s; for (auto &c: sched::choices) { s += num(c.chosen) + " " + num(c.current); for (int e: c.enabled) s += " " + num(e); s += ";"; } return s; };
        sched::on_deadlock = [&](std::string const &s) {
            std::string ev; for (auto &e: events) ev += std::string(ev.empty() ? "" : " ") + e.e + num(e.t) + (e.o.empty() ? "" : e.o.substr(0, 60));
            put(fd[1], "D" + ch() + "\n" + s + ". Events: " + ev); _exit(0); };
        auto r = execute(p, cfg);
        put(fd[1], "H" + (cfg.mode == "dfs" ? ch() : "") + "\n" + r);
        std::fflush(stderr);
#ifdef FREE_RUNNING
        std::exit(0);       // ThreadSanitizer tells with the exit code
#else
        _exit(0);
#endif
    }
    close(fd[1]);
    std::string s; char buf[65536]; ssize_t n;
    while ((n = read(fd[0], buf, sizeof buf)) > 0) s.append(buf, std::size_t(n));
    close(fd[0]);
    int st = 0; waitpid(pid, &st, 0);
    if (st || s.empty()) return {"crash", "status " + num(WIFSIGNALED(st) ? -WTERMSIG(st) : WEXITSTATUS(st)), {}};
    Outcome o{s[0] == 'D' ? "deadlock" : "history", s.substr(s.find('\n') + 1), {}};
    std::stringstream cs(s.substr(1, s.find('\n') - 1)); std::string item;
    while (std::getline(cs, item, ';')) { std::stringstream is(item); sched::Choice c; is >> c.chosen >> c.current; int e; while (is >> e) c.enabled.push_back(e); o.choices.push_back(c); }
    return o;
}
int main(int argc, char **argv) {
    if (argc > 1) {
        std::printf("{\"K\":[");
        std::string_view n[] = {type_name<K1&>(), type_name<K1 const&>(), type_name<K2&>(), type_name<K2 const&>(), type_name<K3&>(), type_name<K3 const&>(), type_name<K4&>(), type_name<K4 const&>(), type_name<K5&>(), type_name<K5 const&>()};
        for (int i = 0; i < 10; ++i) std::printf("%s%s", i ? "," : "", quote(n[i]).c_str());
        std::printf("]}\n");
        return 0;
    }
    Program p; std::vector<Op> *cur = nullptr; std::string line; int no = 0;
    while (std::getline(std::cin, line)) {
        if (line == "lazy-body") { lazies.emplace_back(); cur = &lazies.back(); }
        else if (line == "main") cur = &p.main;
        else if (line == "thread") { p.threads.emplace_back(); cur = &p.threads.back(); }
        else if (line.compare(0, 4, "run ") == 0) {
            std::stringstream s(line.substr(4)); sched::Config cfg; int count, bound = 2; s >> cfg.mode >> count >> cfg.seed >> cfg.p >> cfg.changes >> cfg.fine;
            if (cfg.mode == "dfs") bound = cfg.changes;
            std::set<std::string> hist; int runs = 0; bool complete = true;
            auto report = [&](Outcome const &o) {
                ++runs;
                if (o.kind == "history") {
#ifdef FREE_RUNNING
                    return true;
#else
                    if (hist.insert(o.text).second) std::printf("{\"p\":%d,\"ev\":%s}\n", no, o.text.c_str());
                    return true;
#endif
                }
                std::printf("{\"p\":%d,\"bad\":%s,\"text\":%s}\n", no, quote(o.kind).c_str(), quote(o.text.substr(0, 3000)).c_str());
                return false;
            };
            if (cfg.mode == "dfs") {
                std::vector<std::pair<std::vector<int>, int>> todo{{{}, 0}};    // prefix, preemptions in it
                while (!todo.empty()) {
                    if (runs >= count) { complete = false; break; }
                    // depth first, but not always: when there are too many the rest should not be all of one kind
                    auto k = cfg.seed % 2 ? todo.size() - 1 : (runs * 7919u) % todo.size();
                    std::swap(todo[k], todo.back());
                    auto [prefix, pre] = todo.back(); todo.pop_back();
                    cfg.prefix = prefix;
                    auto o = once(p, cfg);
                    if (!report(o)) break;
                    for (std::size_t i = prefix.size(); i < o.choices.size(); ++i) {
                        auto &c = o.choices[i];
                        for (int e: c.enabled) if (e != c.chosen) {
                            int n = pre + (c.current >= 0 ? 1 : 0);       // the default is to go on
                            if (n > bound) continue;
                            std::vector<int> q; for (std::size_t j = 0; j < i; ++j) q.push_back(o.choices[j].chosen);
                            q.push_back(e); todo.push_back({q, n});
                        }
                    }
                }
            } else {
                auto seed = cfg.seed;
                for (int i = 0; i < count; ++i) { cfg.seed = seed + unsigned(i) * 7919u; if (!report(once(p, cfg))) break; }
            }
            std::printf("{\"p\":%d,\"runs\":%d,\"complete\":%d,\"distinct\":%zu}\n", no, runs, int(complete), hist.size());
            std::fflush(stdout);
        } else if (line == "---") { p = {}; lazies.clear(); ++no; }
        else cur->push_back(parse(line));
    }
}
