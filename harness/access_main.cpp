#include "access_common.h"
std::vector<Asker> askers;
std::vector<Maker> makers;
void fill_all();
int main() {
    fill_all();
    for (std::size_t i = 0; i <= makers.size(); ++i) {
        Held h;
        if (i < makers.size()) {
            try { makers[i](h); }
            catch (std::exception const &e) { std::printf("{\"failed\":true}\n"); continue; }
        }
        auto id = h.v.typeId();
        std::string o = "{\"failed\":false,\"res\":[";
        for (std::size_t k = 0; k < askers.size(); ++k) {
            int r[18];
            askers[k].f(h, r);
            o += k ? ",[" : "[";
            for (int j = 0; j < 18; ++j) o += (j ? "," : "") + std::to_string(r[j]);
            o += "]";
        }
        bool same = h.v.typeId() == id && (h.v.empty() == (i == makers.size())) && (h.v.empty() || !std::memcmp(h.addr, h.content.data(), h.size));
        std::puts((o + "],\"same\":" + (same ? "true" : "false") + "}").c_str());
    }
}
