// Runs the real tokenizer on hex-encoded texts read line by line; prints what it produced.
#include "simfil/token.h"
#include "simfil/exception-handler.h"
#include <cstdio>
#include <iostream>
#include <stdexcept>
using namespace simfil;
static std::string unhex(const std::string& h) {
    std::string r; auto v = [](char c) { return c <= '9' ? c - '0' : c - 'a' + 10; };
    for (size_t i = 0; i + 1 < h.size(); i += 2) r.push_back((char)(v(h[i]) * 16 + v(h[i + 1])));
    return r;
}
static void hex(const std::string& s) { for (unsigned char c : s) std::printf("%02x", c); }
int main() {
    std::string line;
    while (std::getline(std::cin, line)) {
        if (line.size() && line[0] == 'T') {     // T<n>: name of token type n
            hex(Token::toString((Token::Type)std::stoi(line.substr(1)))); std::printf("\n"); std::fflush(stdout); continue;
        }
        // exact-size heap copy so that an access beyond the text is caught
        std::string t = unhex(line);
        char* buf = new char[t.size()]; std::copy(t.begin(), t.end(), buf);
        try {
            auto toks = tokenize(std::string_view(buf, t.size()));
            std::printf("OK");
            for (auto& k : toks) {
                std::printf(" %d:%d:", (int)k.type, (int)k.value.index());
                if (auto* s = std::get_if<std::string>(&k.value)) hex(*s);
                else if (auto* i = std::get_if<int64_t>(&k.value)) std::printf("%lld", (long long)*i);
                else if (auto* d = std::get_if<double>(&k.value)) std::printf("%.17g", *d);
                std::printf(":%zu:%zu:", k.begin, k.end);
                hex(k.toString());
            }
            std::printf("\n");
        } catch (const std::runtime_error& e) { std::printf("ERR runtime_error\n"); }
        catch (const std::exception& e) { std::printf("ERR other\n"); }
        std::fflush(stdout);
        delete[] buf;
    }
}
