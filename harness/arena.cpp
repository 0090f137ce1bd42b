// Runs sequences of arena operations; every reference handed out is re-checked after each operation.
#include "simfil/model/arena.h"
#include <iostream>
#include <memory>
#include <sstream>
#include <vector>
using namespace simfil;
using Arena = ArrayArena<int64_t, 64, 32>;
int main()
{
    std::string line;
    while (std::getline(std::cin, line)) {
        Arena A; Arena const& C = A;
        struct Ref { int64_t const* p; int64_t v; };
        std::vector<Ref> refs;
        std::string out; std::stringstream ops(line); std::string op;
        while (std::getline(ops, op, ';')) {
            std::stringstream ss(op); std::string k; int64_t a = 0, v = 0; ss >> k >> a >> v;
            std::string r;
            auto add = [&](int64_t x) { r += std::to_string(x) + ","; };
            try {
                if (k == "n") r = std::to_string(A.new_array((size_t)a));
                else if (k == "p") { auto& e = A.push_back((ArrayIndex)a, v); r = std::to_string(e); refs.push_back({&e, v}); }
                else if (k == "P") { for (int64_t i = 0; i < v; ++i) A.push_back((ArrayIndex)a, a * 100000 + i); }
                else if (k == "e") { auto& e = A.emplace_back((ArrayIndex)a, v); r = std::to_string(e); refs.push_back({&e, v}); }
                else if (k == "s") r = std::to_string(C.size((ArrayIndex)a));
                else if (k == "S") r = std::to_string(C.size());
                else if (k == "a") r = std::to_string(A.at((ArrayIndex)a, (size_t)v));
                else if (k == "A") r = std::to_string(C.at((ArrayIndex)a, (size_t)v));
                else if (k == "w") { int64_t x; ss >> x; auto& e = A.at((ArrayIndex)a, (size_t)v); for (auto& f : refs) if (f.p == &e) f.v = x; e = x; }
                else if (k == "i") { int64_t n = 0; A.iterate((ArrayIndex)a, [&](auto& e) { add(e); return ++n != v; }); }
                else if (k == "I") A.iterate((ArrayIndex)a, [&](int64_t& e, size_t i) { add(e); r += "@" + std::to_string(i) + ","; });
                else if (k == "v") A.iterate((ArrayIndex)a, [&](auto& e) { add(e); });
                else if (k == "b") { for (auto b = A.begin((ArrayIndex)a), e = A.end((ArrayIndex)a); b != e; ++b) add(*b); }
                else if (k == "B") { for (auto b = C.begin((ArrayIndex)a), e = C.end((ArrayIndex)a); b != e; ++b) add(*b); }
                else if (k == "r") { auto q = A.range((ArrayIndex)a); r = std::to_string(q.size()) + ":"; for (auto x : q) add(x); for (size_t i = 0; i < q.size(); ++i) add(q[i]); }
                else if (k == "o") { for (auto q : A) { r += "["; for (auto x : q) add(x); r += "]"; } }
                else if (k == "c") { refs.clear(); A.clear(); A.shrink_to_fit(); }
                else if (k == "h") A.shrink_to_fit();
                else r = "?";
            } catch (std::out_of_range const&) { r = "range"; } catch (std::exception const& e) { r = "error"; }
            if (k != "h") for (auto& s : refs) if (*s.p != s.v) r += " !element moved or changed";
            out += r + ";";
        }
        std::cout << out << "\n";
    }
}
