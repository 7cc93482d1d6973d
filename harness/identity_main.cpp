// stdin: lines "op t d way" separated by "---" (op 0 mention, 1 lookup); argv: plugins. One process per script.
#define ENTRY main_entry
#include "identity_types.h"
#include <cstdio>
#include <dlfcn.h>
#include <iostream>
#include <map>
#include <sstream>
#include <sys/wait.h>
#include <unistd.h>
#include <vector>
int main(int argc, char **argv) {
    std::vector<std::vector<std::array<int, 4>>> scripts(1);
    std::string line;
    if (argc == 2 && std::string(argv[1]) == "bases") {
        for (auto &i: items) std::printf("%d\t%s\n", i.base, i.name().c_str());
        return 0;
    }
    while (std::getline(std::cin, line)) {
        if (line == "---") { scripts.emplace_back(); continue; }
        std::istringstream is(line); std::array<int, 4> a; is >> a[0] >> a[1] >> a[2] >> a[3];
        scripts.back().push_back(a);
    }
    for (std::size_t k = 0; k < scripts.size(); ++k) {
        std::fflush(stdout);
        auto pid = fork();
        if (!pid) {
            using F = std::size_t (*)(int, int, int);
            std::vector<F> f{&main_entry};
            // modules are loaded while the history is under way
            auto get = [&](int d) -> F {
                while (int(f.size()) <= d) {
                    auto h = dlopen(argv[f.size()], RTLD_NOW | RTLD_LOCAL);
                    if (!h) { std::fprintf(stderr, "%s\n", dlerror()); _exit(7); }
                    f.push_back(F(dlsym(h, "plugin_entry")));
                }
                return f[d];
            };
            std::map<std::size_t, int> ids;
            std::string out = "{\"ev\":[";
            bool first = true;
            for (auto &a: scripts[k]) {
                auto v = get(a[2])(a[0], a[1], a[3]);
                int id = v ? ids.emplace(v, int(ids.size()) + 1).first->second : 0;
                if (!first) out += ","; first = false;
                out += "{\"op\":\"" + std::string(a[0] ? "lookup" : "mention") + "\",\"t\":" + std::to_string(a[1] + 1) + ",\"d\":" + std::to_string(a[2]) + ",\"id\":" + std::to_string(id) + "}";
            }
            std::puts((out + "]}").c_str());
            std::fflush(stdout);
            _exit(0);
        }
        int st; waitpid(pid, &st, 0);
        if (st) std::printf("{\"crash\":%d}\n", st);
    }
}
