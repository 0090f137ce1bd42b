// Runs sequences of string pool operations; previously returned texts are re-checked after every operation.
#include "simfil/model/string-pool.h"
#include <iostream>
#include <memory>
#include <sstream>
#include <vector>
using namespace simfil;
static std::string unhex(std::string const& h) { std::string r; if (h != "-") for (size_t i = 0; i + 1 < h.size(); i += 2) r += (char)std::stoi(h.substr(i, 2), nullptr, 16); return r; }
static std::string hex(std::string_view s) { static const char* d = "0123456789abcdef"; std::string r; for (unsigned char c : s) { r += d[c >> 4]; r += d[c & 15]; } return r.empty() ? "-" : r; }
int main()
{
    std::string line;
    while (std::getline(std::cin, line)) {
        std::unique_ptr<StringPool> p[4];
        struct Seen { StringId id; std::string_view v; std::string text; };
        std::vector<Seen> seen[4];
        std::string out;
        std::stringstream ops(line); std::string op;
        while (std::getline(ops, op, ';')) {
            std::stringstream ss(op); std::string k; int i = 0; ss >> k >> i;
            std::string r;
            try {
                if (k == "n") { seen[i].clear(); p[i] = std::make_unique<StringPool>(); }
                else if (k == "d") { seen[i].clear(); p[i].reset(); }
                else if (k == "c") { int j; ss >> j; if (p[j] && i != j) { seen[i].clear(); p[i] = std::make_unique<StringPool>(*p[j]); } }
                else if (!p[i]) r = "none";
                else if (k == "e") { std::string h; ss >> h; auto s = std::make_unique<std::string>(unhex(h)); r = std::to_string(p[i]->emplace(*s)); }
                else if (k == "g") { std::string h; ss >> h; r = std::to_string(p[i]->get(unhex(h))); }
                else if (k == "r") { int id; ss >> id; auto v = p[i]->resolve((StringId)id); if (v) { r = hex(*v); if (seen[i].size() < 64) seen[i].push_back({(StringId)id, *v, std::string(*v)}); } else r = "none"; }
                else if (k == "k") { int id; std::string h; ss >> id >> h; auto s = std::make_unique<std::string>(unhex(h)); p[i]->addStaticKey((StringId)id, *s); }
                else if (k == "f") { int n; std::string pre; ss >> n >> pre; pre = unhex(pre); int done = 0; try { for (; done < n; ++done) p[i]->emplace(pre + std::to_string(done)); r = "ok" + std::to_string(done); } catch (std::exception const&) { r = "full" + std::to_string(done); } }
                else if (k == "w") { int off; ss >> off; std::stringstream st; p[i]->write(st, (StringId)off); r = hex(st.str()); }
                else if (k == "R") { int j, off; ss >> j >> off; if (p[j]) { std::stringstream st; p[j]->write(st, (StringId)off); p[i]->read(st); } }
                else if (k == "=") { int j; ss >> j; r = p[j] ? (*p[i] == *p[j] ? "1" : "0") : "none"; }
                else if (k == "h") r = std::to_string(p[i]->highest());
                else if (k == "z") r = std::to_string(p[i]->size());
                else r = "?";
            } catch (std::exception const& e) { r = "error"; }
            for (int q = 0; q < 4; ++q)
                for (auto& s : seen[q]) if (s.v != s.text) r += " !text of id " + std::to_string(s.id) + " changed";
            out += r + ";";
        }
        std::cout << out << "\n";
    }
}
