// One overlay history per line: base value, then name=value (set) or ^ (an overlay over the overlay), tab separated.
#include "simfil/overlay.h"
#include "simfil/model/json.h"
#include <iostream>
#include <sstream>
using namespace simfil;
static std::vector<std::string> keep;
static std::vector<ModelPoolPtr> models;
static std::shared_ptr<StringPool> strings;
static std::string scalar(ScalarValueType const& v)
{
    if (auto x = std::get_if<bool>(&v)) return *x ? "b1" : "b0";
    if (auto x = std::get_if<int64_t>(&v)) return "i" + std::to_string(*x);
    if (auto x = std::get_if<double>(&v)) { std::ostringstream s; s << *x; return "d" + s.str(); }
    if (auto x = std::get_if<std::string>(&v)) return "s" + *x;
    if (auto x = std::get_if<std::string_view>(&v)) return "s" + std::string(*x);
    return "-";
}
static Value make(std::string const& s)
{
    auto r = s.substr(1);
    switch (s[0]) {
    case 'i': return Value::make((int64_t)std::stoll(r));
    case 'd': return Value::make(std::stod(r));
    case 'b': return Value::make(r == "1");
    case 'n': return Value::null();
    case 'u': return Value::undef();
    case 's': return Value::make(r);
    case 'v': keep.reserve(1000); keep.push_back(r); return Value::make(std::string_view(keep.back()));
    default: {
        auto m = std::make_shared<ModelPool>(strings);
        json::parse(r, m); models.push_back(m);
        return Value::field(*m->root(0)); }
    }
}
static char letter(ValueType t)
{
    switch (t) { case ValueType::Object: return 'O'; case ValueType::Array: return 'A'; case ValueType::Null: return 'N'; case ValueType::Bool: return 'B'; case ValueType::Int: return 'I';
                 case ValueType::Float: return 'F'; case ValueType::String: return 'S'; default: return 'U'; }
}
static std::string text(ModelNode const& n)
{
    auto t = letter(n.type());
    return t + scalar(n.value()) + (t == 'O' || t == 'A' ? std::to_string(n.size()) : "");
}
int main()
{
    std::string line;
    while (std::getline(std::cin, line)) {
        std::string out;
        try {
            keep.clear(); models.clear(); strings = std::make_shared<StringPool>();
            std::vector<std::string> w; std::stringstream ss(line); std::string p;
            while (std::getline(ss, p, '\t')) w.push_back(p);
            auto ov = model_ptr<OverlayNode>::make(make(w[0]));
            for (size_t i = 1; i < w.size(); ++i) {
                if (w[i] == "^") { ov = model_ptr<OverlayNode>::make(Value::field(ov)); continue; }
                auto e = w[i].find('=');
                ov->set(strings->emplace(w[i].substr(0, e)), make(w[i].substr(e + 1)));
            }
            auto dump = [&](ModelNode const& n) {
                std::string o; o += letter(n.type()); o += "|" + scalar(n.value()) + "|" + std::to_string(n.size()) + "|at:";
                for (uint32_t i = 0; i < n.size(); ++i) { if (i) o += " "; auto k = n.keyAt(i); auto s = strings->resolve(k); o += (s ? std::string(*s) : "?") + "=" + text(*n.at(i)); }
                std::string it; auto all = n.iterate(ModelNode::IterLambda([&](ModelNode const& c) { if (!it.empty()) it += " "; it += text(c); return true; }));
                o += "|it:" + it + "/" + (all ? "1" : "0");
                it = ""; all = n.iterate(ModelNode::IterLambda([&](ModelNode const& c) { if (!it.empty()) it += " "; it += text(c); return false; }));
                o += "|stop:" + it + "/" + (all ? "1" : "0") + "|get:";
                bool first = true;
                for (auto name : {"a", "b", "A", "name", "x", "$sum", "$val", "$idx", ""}) {
                    if (!first) o += " "; first = false;
                    auto c = n.get(strings->emplace(name));
                    o += std::string(name) + "=" + (c ? text(*c) : "0");
                }
                return o;
            };
            out = dump(*ov);
            auto again = Value::field(ov);
            auto o2 = dump(*again.node);
            if (o2 != out) out += " AS-NODE " + o2;
        } catch (std::exception const& x) { out = std::string("EXC ") + x.what(); }
        std::cout << out << std::endl;
    }
}
