// Operations of several threads on one pool: "ops|ops|...", one list per thread.
#include "simfil/model/string-pool.h"
#include <atomic>
#include <iostream>
#include <memory>
#include <sstream>
#include <thread>
#include <vector>
using namespace simfil;
static std::string hex(std::string_view s) { if (s.empty()) return "-"; std::string r; char b[3]; for (unsigned char c : s) { snprintf(b, 3, "%02x", c); r += b; } return r; }
static std::string op(StringPool& p, StringPool& q, std::string const& o)
{
    auto x = o.substr(1);
    switch (o[0]) {
    case 'e': return std::to_string(p.emplace(x));
    case 'g': return std::to_string(p.get(x));
    case 'r': { auto t = p.resolve((StringId)std::stoi(x)); return t ? hex(*t) : "none"; }
    case 'h': return std::to_string(p.highest());
    case 'z': return std::to_string(p.size());
    case 'b': return std::to_string(p.bytes() + 0 * (p.hits() + p.misses()));
    case 'w': { std::stringstream s; p.write(s, 0); StringPool r; r.read(s); return r.highest() >= 127 ? "ok" : "bad"; }
    case '=': (void)(p == q); (void)(q == p); return p == p ? "ok" : "differs from itself";
    case 'c': { StringPool c(p); return c.highest() >= 127 ? "ok" : "bad"; }
    case 'R': { std::stringstream s; p.write(s, 0); q.read(s); return "ok"; }
    }
    return "?";
}
int main()
{
    std::string line;
    while (std::getline(std::cin, line)) {
        std::vector<std::vector<std::string>> ops; std::stringstream ss(line); std::string t;
        while (std::getline(ss, t, '|')) { ops.emplace_back(); std::stringstream s2(t); std::string o; while (std::getline(s2, o, ';')) ops.back().push_back(o); }
        auto p = std::make_unique<StringPool>(), q = std::make_unique<StringPool>();
        std::vector<std::string> out(ops.size()); std::vector<std::thread> th; std::atomic<size_t> ready{0};
        for (size_t i = 0; i < ops.size(); ++i)
            th.emplace_back([&, i] {
                ++ready; while (ready < ops.size()) {}
                for (auto& o : ops[i]) { if (&o != &ops[i][0]) out[i] += ';'; try { out[i] += op(*p, *q, o); } catch (std::exception const& e) { out[i] += "error"; } }
            });
        for (auto& x : th) x.join();
        for (size_t i = 0; i < out.size(); ++i) std::cout << (i ? "|" : "") << out[i];
        std::cout << std::endl;
    }
}
