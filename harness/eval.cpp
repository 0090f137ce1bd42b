// Reads "<hex JSON>\t<hex query>[\tw]" lines; prints the parsed expression, the values a query yields, and what happens
// when its consumer stops after the 1st, 2nd, ... value.
#include "simfil/simfil.h"
#include "simfil/types.h"
#include "simfil/expression.h"
#include "simfil/environment.h"
#include "simfil/model/model.h"
#include "simfil/model/json.h"
#include <iostream>
#include <cstring>
using namespace simfil;
static std::string hex(std::string_view s){ static const char* d="0123456789abcdef"; std::string r; for(unsigned char c: s){ r+=d[c>>4]; r+=d[c&15]; } return r; }
static std::string unhex(std::string const& s){ std::string r; for(size_t i=0;i+1<s.size();i+=2) r+=(char)std::stoi(s.substr(i,2),nullptr,16); return r; }
static std::string print(Value const& v)
{
    auto n = v.node ? "@" : "";
    switch (v.type) {
    case ValueType::Undef: return std::string(n) + "U";
    case ValueType::Null: return std::string(n) + "N";
    case ValueType::Bool: return std::string(n) + (v.as<ValueType::Bool>() ? "B1" : "B0");
    case ValueType::Int: return std::string(n) + "I" + std::to_string(v.as<ValueType::Int>());
    case ValueType::Float: { double d = v.as<ValueType::Float>(); uint64_t b; memcpy(&b, &d, 8); char buf[20]; snprintf(buf, 20, "%016llx", (unsigned long long)b); return std::string(n) + "F" + buf; }
    case ValueType::String: return std::string(n) + "S" + hex(v.as<ValueType::String>());
    case ValueType::TransientObject: return "T" + hex(v.toString());
    case ValueType::Object: case ValueType::Array: return v.node ? std::string(n) + (v.type == ValueType::Object ? "O" : "A") + hex(v.node->toJson().dump()) : "M";
    }
    return "?";
}
struct Consumer : ResultFn {
    mutable size_t calls = 0, stopAfter, late = 0; mutable std::string out; mutable bool badCtx = false; Environment* env;
    Consumer(Environment* e, size_t s) : stopAfter(s), env(e) {}
    auto operator()(Context ctx, Value v) const -> Result override
    {
        if (ctx.env != env || ctx.phase != Context::Evaluation) badCtx = true;
        if (stopAfter && calls >= stopAfter) ++late;
        ++calls;
        if (calls <= 3000) { out += ' '; out += print(v); }
        if (calls > 20000) throw std::runtime_error("endless");
        return stopAfter && calls >= stopAfter ? Result::Stop : Result::Continue;
    }
};
int main()
{
    std::string line, lastJson; ModelPoolPtr model;
    while (std::getline(std::cin, line)) {
        auto t = line.find('\t'); auto u = line.find('\t', t + 1);
        auto js = unhex(line.substr(0, t)), q = unhex(line.substr(t + 1, u == std::string::npos ? u : u - t - 1));
        bool wild = u != std::string::npos && line.find('w', u) != std::string::npos, any = u != std::string::npos && line.find('a', u) != std::string::npos;
        std::string r;
        try {
            auto model = json::parse(js);       // a fresh model and string pool for every query
            Environment env(model->strings());
            ExprPtr e;
            try { e = compile(env, q, any, wild); }
            catch (std::exception const& x) { r = std::string("CE ") + (dynamic_cast<std::runtime_error const*>(&x) ? "r" : "o"); }
            if (r.empty() && !e) r = "NULL";
            if (r.empty()) {
                r = "OK " + hex(e->toString());
                auto root = model->root(0);
                auto run = [&](size_t stop, Consumer& c) -> std::string {
                    try { return e->eval(Context(&env), Value::field(*root), c) == Result::Stop ? "S" : "C"; }
                    catch (std::runtime_error const&) { return "E"; }
                    catch (std::exception const&) { return "X"; }
                };
                Consumer c(&env, 0); auto res = run(0, c);
                r += " |" + c.out + " | " + res + (c.badCtx ? " badctx" : "") + " |";
                for (size_t k = 1; k <= c.calls && k <= 8; ++k) { Consumer d(&env, k); auto s = run(k, d); r += " " + std::to_string(d.late) + s + (d.out == c.out.substr(0, d.out.size()) ? "" : "!"); }
                for (auto& w : env.traces) r += " trace:" + hex(w.first) + ":" + std::to_string(w.second.values.size());
            }
        } catch (std::exception const& x) { r = std::string("JE ") + hex(x.what()); }
        std::cout << r << std::endl;
    }
}
