#include "registry.h"
#include <iostream>
#include <sys/wait.h>
#include <unistd.h>
Log journal;
std::vector<std::vector<Op>> lazies;
std::vector<MetaContainer const*> known;
int statics[4] = {0, 1, 2, 3};
static std::map<std::string, void const*> seen_items;            // items must stay where they are
static std::map<std::pair<void const*, std::string>, variant const*> seen_values;
std::string quote(std::string_view s) { std::string r = "\""; for (char c: s) { if (c == '"' || c == '\\') r += '\\'; r += c; } return r + '"'; }
int known_id(MetaContainer const *c, bool add) {
    for (std::size_t i = 0; i < known.size(); ++i) if (known[i] == c) return int(i) + 1;
    if (!c || !add) return 0;
    known.push_back(c);
    return int(known.size());
}
static MetaType_ID const *class_ids() {
    static MetaType_ID ids[] = {MetaType_ID{}, metaTypeId<K1>(), metaTypeId<K2>(), metaTypeId<K3>(), metaTypeId<K4>(), metaTypeId<K5>()};
    return ids;
}
int class_no(MetaClass const *c) {
    for (int k = 1; k <= 5; ++k) if (c && c->metaTypeId() == class_ids()[k]) return k;
    return 0;
}
std::string classify() {
    try { throw; }
    catch (Script_thrown&) { return "thrown"; }
    catch (duplicate_metaclass&) { return "duplicate"; }
    catch (unregistered_metaclass&) { return "unregistered"; }
    catch (definition_error&) { return "definition"; }
    catch (runtime_error &e) { return "runtime"; }
    catch (std::exception &e) { return std::string("std: ") + e.what(); }
    catch (...) { return "unknown"; }
}
static std::string num(long x) { return std::to_string(x); }
static std::string ref(MetaContainer const *c) { return num(known_id(c)); }
static std::string owner_json(MetaContainer const *c) { return ref(c); }
#include "registry_obs.h"
void query(Op const &o, std::vector<std::string> &res, std::string &look) {
    auto add = [&](std::string const &s) { res.push_back(s); };
    if (o.op == "find") { add(num(known_id(MetaClass::find(class_ids()[o.a])))); return; }
    if (o.a > int(known.size())) return;
    auto c = known[o.a - 1];
    auto k = c->category() == mcatClass ? static_cast<MetaClass const*>(c) : nullptr;
    auto member = [&](MetaItem const *i, int id) { if (i) { add(num(known_id(i->owner()))); add(i->name()); add(num(id)); } };
    if (o.op == "dump") look = dump(c);
    else if (o.op == "methodBy") { auto m = c->getMethod(o.n); member(m, m ? method_id(m) : 0); }
    else if (o.op == "propBy") { auto p = c->getProperty(o.n); member(p, p ? prop_id(p) : 0); }
    else if (o.op == "inherits") { auto b = MetaClass::find(class_ids()[o.b]); if (b && k && b != k) add(k->inheritedFrom(b) ? "1" : "0"); }
    else if (o.op == "force") c->forceDeferredDefine(MetaContainer::ForceDeferred::Recursive);
    else if (o.op == "obs") observe(c, k, o, res);
    else std::abort();
}
static bool is_query(std::string const &op) { return op == "find" || op == "dump" || op == "methodBy" || op == "propBy" || op == "inherits" || op == "force" || op == "obs"; }
static std::string entry(char const *e, int o, std::string const &out, std::vector<std::string> const &res) {
    return std::string("{\"e\":\"") + e + "\",\"o\":" + num(o) + ",\"out\":" + quote(out) + ",\"res\":" + list(res.size(), [&](auto i) { return quote(res[i]); }) + "}";
}
std::string lazy_begin(int i, MetaContainer const *self) { journal.add(entry("run", i, "", {num(known_id(self))})); return {}; }
void lazy_end(int i, MetaContainer const *self, std::string const &out) { journal.add(entry("end", i, out, {num(known_id(self))})); }
void run_ops(int i, Stack &stack) {
    for (auto const &o: lazies[i - 1]) {
        std::vector<std::string> res; std::string look;
        try { if (is_query(o.op)) query(o, res, look); else stack.back()->run(o, stack); }
        catch (...) { journal.add(entry("op", 0, classify(), {})); throw; }
        journal.add(entry("op", 0, "ok", res));
    }
}
static std::string script(std::vector<Op> const &ops) {
    known = {MetaNamespace::global()};
    auto glob = rtti::global_define();
    Stack stack;
    stack.push_back(std::make_unique<Def<void, void, 0>>(glob, known[0]));
    std::string ev;
    for (auto const &o: ops) {
        journal.s.clear();
        std::vector<std::string> res; std::string look, out = "ok";
        try { if (is_query(o.op)) query(o, res, look); else stack.back()->run(o, stack); }
        catch (...) { out = classify(); res.clear(); look.clear(); }
        ev += (ev.empty() ? "" : ",") + std::string("{\"o\":") + o.text + ",\"out\":" + quote(out) + ",\"res\":" + list(res.size(), [&](auto i) { return quote(res[i]); })
            + ",\"log\":[" + journal.s + "]" + (look.empty() ? "" : ",\"look\":" + look) + "}";
    }
    return ev;
}
// input: lines "op a b n m l,l json"; a line "lazy-body" starts the next deferred definition, "main" the program, "---" ends the script
static Op parse(std::string const &line) {
    Op o; std::vector<std::string> f; std::size_t p = 0;
    for (int i = 0; i < 6; ++i) { auto q = line.find('\t', p); f.push_back(line.substr(p, q - p)); p = q + 1; }
    o.op = f[0]; o.a = std::stoi(f[1]); o.b = std::stoi(f[2]); o.n = f[3]; o.m = f[4]; o.text = line.substr(p);
    std::stringstream s(f[5]); std::string x;
    while (std::getline(s, x, ',')) o.l.push_back(std::stoi(x));
    return o;
}
int main(int argc, char **argv) {
    if (argc > 1) {
        std::printf("{\"K\":[");
        std::string_view n[] = {type_name<K1&>(), type_name<K1 const&>(), type_name<K2&>(), type_name<K2 const&>(), type_name<K3&>(), type_name<K3 const&>(), type_name<K4&>(), type_name<K4 const&>(), type_name<K5&>(), type_name<K5 const&>()};
        for (int i = 0; i < 10; ++i) std::printf("%s%s", i ? "," : "", quote(n[i]).c_str());
        std::printf("]}\n");
        return 0;
    }
    std::vector<Op> prog, *cur = nullptr; std::string line;
    auto flush = [&] {
        std::fflush(stdout);
        if (auto pid = fork(); pid == 0) {
            alarm(60);
            auto s = script(prog);
            std::printf("{\"ev\":[%s]}\n", s.c_str()); std::fflush(stdout);
            _exit(0);
        } else { int st = 0; waitpid(pid, &st, 0); if (st) { std::printf("{\"crash\":%d}\n", WIFSIGNALED(st) ? -WTERMSIG(st) : WEXITSTATUS(st)); } }
        prog.clear(); lazies.clear();
    };
    while (std::getline(std::cin, line)) {
        if (line == "lazy-body") { lazies.emplace_back(); cur = &lazies.back(); }
        else if (line == "main") cur = &prog;
        else if (line == "---") flush();
        else cur->push_back(parse(line));
    }
}
