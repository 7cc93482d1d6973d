#include "types_common.h"
#include <algorithm>
#include <iostream>
#include <random>
using namespace rtti;
std::vector<Entry> entries;
void fill_all();

static std::string list(std::vector<std::string> const &v) {
    std::string r = "["; for (auto &x: v) { if (r.size() > 1) r += ","; r += jstr(x); } return r + "]";
}
static std::vector<std::string> split(std::string const &s) {
    std::vector<std::string> r; std::string cur;
    for (char c: s) if (c == '|') { r.push_back(cur); cur.clear(); } else cur += c;
    if (!cur.empty()) r.push_back(cur);
    return r;
}

// args: compat <groups file: lines "from cand cand ..."> | describe <order seed>
int main(int argc, char **argv) {
    fill_all();
    std::string mode = argv[1];
    std::size_t N = entries.size();
    std::vector<std::size_t> order(N);
    for (std::size_t i = 0; i < N; ++i) order[i] = i;
    std::mt19937 rng(atoi(argv[2]));
    std::shuffle(order.begin(), order.end(), rng);
    std::vector<MetaType> mt(N);
    std::map<std::size_t, int> idof;
    for (auto i: order) mt[i] = entries[i].get();
    for (std::size_t i = 0; i < N; ++i) if (mt[i].valid()) idof.emplace(mt[i].typeId().value(), int(i) + 1);
    auto idx = [&](MetaType_ID id) { auto it = idof.find(id.value()); return it == idof.end() ? 0 : it->second; };
    if (mode == "compat") {
        std::string line;
        while (std::getline(std::cin, line)) {
            std::istringstream is(line); std::size_t f, c; is >> f;
            auto from = f <= N ? mt[f - 1] : MetaType{};
            std::string out = "{\"f\":" + std::to_string(f) + ",\"valid\":" + (f <= N ? "true" : "false") + ",\"yes\":[";
            bool first = true;
            while (is >> c) {
                auto to = c <= N ? mt[c - 1] : MetaType{};
                if (MetaType::compatible(from, to)) { if (!first) out += ","; first = false; out += std::to_string(c); }
            }
            std::puts((out + "]}").c_str());
        }
        return 0;
    }
    for (std::size_t i = 0; i < N; ++i) {
        auto &e = entries[i]; auto t = mt[i];
        std::string o = "{\"kind\":\"type\",\"self\":" + std::to_string(i + 1);
        auto flags = std::uint32_t(t.typeFlags());
        o += ",\"bits\":["; bool first = true;
        for (int b = 0; b < 32; ++b) if (flags >> b & 1) { if (!first) o += ","; first = false; o += std::to_string(b); }
        o += "],\"base\":" + e.facts() + ",\"bsize\":" + std::to_string(e.bsize) + ",\"ptr\":" + std::to_string(sizeof(void*));
        o += ",\"size\":" + std::to_string(t.typeSize()) + ",\"arity\":" + std::to_string(t.pointerArity());
        std::vector<std::string> p;
        auto add = [&](bool v, char const *n) { if (v) p.push_back(n); };
        add(t.valid(), "valid"); add(t.decayed(), "decayed"); add(t.isConst(), "isConst"); add(t.isLvalueReference(), "isLvalueReference");
        add(t.isRvalueReference(), "isRvalueReference"); add(t.isReference(), "isReference"); add(t.isClass(), "isClass");
        add(t.isPointer(), "isPointer"); add(t.isVoidPtr(), "isVoidPtr"); add(t.isClassPtr(), "isClassPtr");
        add(t.isFunctionPtr(), "isFunctionPtr"); add(t.isArray(), "isArray");
        o += ",\"preds\":" + list(p);
        o += ",\"idof\":" + std::to_string(idx(t.typeId()));
        o += ",\"decay\":" + std::to_string(idx(t.decayId())) + ",\"xdecay\":" + std::to_string(e.decay);
        o += ",\"byname\":" + std::to_string(idx(MetaType{t.typeName()}.typeId()));
        o += ",\"byid\":" + std::to_string(idx(MetaType{entries[i].get().typeId()}.typeId()));
        o += ",\"name\":" + jstr(t.typeName()) + ",\"xname\":" + jstr(e.pretty());
        std::ostringstream os; os << t; auto s = os.str();
        auto a = s.find("Name: ["), b = s.find("], Flags: [");
        if (a == s.npos || b == s.npos || s.back() != ']') { a = 0; b = 7; s = "Name: [], Flags: []"; }
        o += ",\"pname\":" + jstr(s.substr(a + 7, b - a - 7));
        auto fl = s.substr(b + 11, s.size() - b - 12);
        o += ",\"printed\":" + list(split(fl)) + "}";
        std::puts(o.c_str());
    }
    auto flagrow = [&](std::uint32_t v) {
        std::ostringstream os; os << TypeFlags(v);
        std::string o = "{\"kind\":\"flags\",\"bits\":["; bool first = true;
        for (int b = 0; b < 32; ++b) if (v >> b & 1) { if (!first) o += ","; first = false; o += std::to_string(b); }
        std::puts((o + "],\"printed\":" + list(split(os.str())) + "}").c_str());
    };
    flagrow(0);
    for (int b = 0; b < 24; ++b) { flagrow(1u << b); flagrow(3u << b & 0xffffff); }
    for (int k = 0; k < 200; ++k) flagrow(rng() & 0xffffff);
    auto inv = [&](char const *what, bool ok) { std::printf("{\"kind\":\"invalid\",\"what\":\"%s\",\"ok\":%s}\n", what, ok ? "true" : "false"); };
    MetaType none;
    inv("default is not valid", !none.valid());
    inv("void is not valid", !metaType<void>().valid() && !metaTypeId<void>().valid());
    inv("default name is void", none.typeName() == "void");
    inv("default size", none.typeSize() == 0 && none.pointerArity() == 0 && !none.decayId().valid() && !none.typeId().valid());
    inv("empty name", !MetaType{std::string_view{}}.valid() && !MetaType{""}.valid());
    inv("unknown name", !MetaType{"no::such::type"}.valid());
    inv("unknown id", !MetaType{MetaType_ID{}}.valid());
    inv("prefix of a name", !MetaType{"probe::"}.valid() && !MetaType{"in"}.valid());
    inv("name with trailing blank", !MetaType{"int "}.valid() && !MetaType{" int"}.valid());
    inv("void is compatible with nothing", !MetaType::compatible(none, none) && !MetaType::compatible(none, metaType<int>()) && !MetaType::compatible(metaType<int>(), none));
    inv("no converter for invalid types", !MetaType::hasConverter(none, metaType<int>()) && !MetaType::hasConverter(metaType<int>(), none));
    int x = 0; int const cx = 0; auto const &rx = cx;
    inv("metaType(lvalue)", metaType(x).typeId() == metaTypeId<int&>());
    inv("metaType(const lvalue)", metaType(cx).typeId() == metaTypeId<int const&>() && metaType(rx).typeId() == metaTypeId<int const&>());
    inv("metaType(rvalue)", metaType(1).typeId() == metaTypeId<int>());
    inv("metaClass of unregistered", metaType<int>().metaClass() == nullptr && none.metaClass() == nullptr);
    inv("const nullptr_t", metaTypeId<std::nullptr_t const>() != metaTypeId<std::nullptr_t>());
    return 0;
}
