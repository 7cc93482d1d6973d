#include "classes_common.h"
#include <algorithm>
#include <map>
std::vector<Graph> graphs;
std::vector<std::vector<rtti::MetaType_ID>> class_ids;
void fill_all();

void run_held(Held &h) {
    auto id = h.v.typeId();
    std::vector<long> before;
    for (auto &s: h.subs) before.push_back(s.own ? *s.own : 0);
    std::string res = "[", ask = "[";
    for (std::size_t k = 0; k < graphs[h.graph].asks.size(); ++k) {
        std::vector<Res> r;
        graphs[h.graph].asks[k](h, r);
        res += k ? ",[" : "["; ask += (k ? "," : "") + std::to_string(k + 1);
        for (std::size_t j = 0; j < r.size(); ++j) res += (j ? "," : "") + list(r[j]);
        res += "]";
    }
    bool same = h.v.typeId() == id;
    for (std::size_t k = 0; k < h.subs.size(); ++k) same = same && before[k] == (h.subs[k].own ? *h.subs[k].own : 0);
    std::map<void const*, int> addr; Res ranks;
    for (auto &s: h.subs) ranks.push_back(addr.emplace(s.addr, int(addr.size())).first->second);
    auto const &cv = h.v;
    std::printf("{\"kind\":\"held\",\"g\":%d,\"h\":{\"t\":%s,\"c\":%d,\"d\":%d,\"s\":%d,\"own\":%s,\"addr\":%s},\"ask\":%s],\"res\":%s],\"same\":%s,\"mc\":%d}\n",
                h.graph + 1, h.type.c_str(), h.c, h.d, h.s, h.own ? "true" : "false", list(ranks).c_str(), ask.c_str(), res.c_str(), same ? "true" : "false",
                class_index(cv.metaClass(), class_ids[h.graph]));
}
int main() {
    fill_all();
    for (auto &g: graphs) g.define();
    for (auto &g: graphs) {
        for (auto f: g.hold) f();
    }
}
