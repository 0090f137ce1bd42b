// Builds models by commands and prints every view of their nodes.
#include "simfil/model/model.h"
#include "simfil/model/json.h"
#include <bit>
#include <cstring>
#include <iostream>
#include <memory>
#include <sstream>
#include <vector>
using namespace simfil;
static std::string unhex(std::string const& h) { std::string r; if (h != "-") for (size_t i = 0; i + 1 < h.size(); i += 2) r += (char)std::stoi(h.substr(i, 2), nullptr, 16); return r; }
static std::string hex(std::string_view s) { static const char* d = "0123456789abcdef"; std::string r; for (unsigned char c : s) { r += d[c >> 4]; r += d[c & 15]; } return r.empty() ? "-" : r; }
struct Pool : ModelPool {
    using ModelPool::ModelPool;
    void rawElement(ArrayIndex a, ModelNodeAddress n) { arrayMemberStorage().emplace_back(a, n); }
    void rawField(ArrayIndex a, StringId s, ModelNodeAddress n) { objectMemberStorage().emplace_back(a, s, n); }
};
static std::string scalar(ScalarValueType const& v)
{
    return std::visit([](auto&& x) -> std::string {
        using T = std::decay_t<decltype(x)>;
        if constexpr (std::is_same_v<T, std::monostate>) return "null";
        else if constexpr (std::is_same_v<T, bool>) return x ? "b1" : "b0";
        else if constexpr (std::is_same_v<T, int64_t>) return "i" + std::to_string(x);
        else if constexpr (std::is_same_v<T, double>) { char b[32]; snprintf(b, 32, "d%016lx", (unsigned long)std::bit_cast<uint64_t>(x)); return b; }
        else return "s" + hex(x);
    }, v);
}
static const char* typeName(ValueType t) { static const char* n[] = {"Undef", "Null", "Bool", "Int", "Float", "String", "Transient", "Object", "Array"}; return n[(int)t]; }
template <class N> static std::string node(N const& n) { return std::string(typeName(n.type())) + ":" + scalar(n.value()); }
static std::string addr(ModelNode::Ptr const& p) { return p ? std::to_string(p->addr().column()) + "." + std::to_string(p->addr().index()) : "none"; }
static std::string deep(ModelNode::Ptr const& p, ModelPool const& m, int d = 0)
{
    if (!p) return "none";
    if (d > 40) return "deep";
    if (p->type() == ValueType::Object) {
        std::string r = "{";
        for (auto const& [k, v] : p->fields()) { auto s = m.lookupStringId(k); r += (s ? hex(*s) : std::string("?")) + "=" + deep(v, m, d + 1) + ","; }
        return r + "}";
    }
    if (p->type() == ValueType::Array) { std::string r = "["; for (auto const& v : *p) r += deep(v, m, d + 1) + ","; return r + "]"; }
    return node(*p);
}
// a node by its content: containers by their index, scalars by their value
template <class N> static std::string brief(N const& n) { auto t = n.type(); return t == ValueType::Object ? "O" + std::to_string(n.addr().index()) : t == ValueType::Array ? "A" + std::to_string(n.addr().index()) : node(n); }
static std::string brief(ModelNode::Ptr const& p) { return p ? brief(*p) : "none"; }
static std::string name(StringId id, ModelPool const& m) { auto s = m.lookupStringId(id); return s ? hex(*s) : "?"; }
// all views of one node
static std::string views(ModelNode const& n, Pool const& m, std::vector<StringId> const& names)
{
    std::string r = node(n) + " n" + std::to_string(n.size()) + " at";
    for (int64_t i = -2; i < (int64_t)n.size() + 2; ++i) r += " " + brief(n.at(i));
    for (int64_t i : {INT64_MIN, INT64_MAX, (int64_t)1 << 32, -((int64_t)1 << 32)}) r += " " + brief(n.at(i)) + "/" + name(n.keyAt(i), m);
    r += " key";
    for (int64_t i = -2; i < (int64_t)n.size() + 2; ++i) r += " " + name(n.keyAt(i), m);
    r += " get";
    for (auto id : names) r += " " + brief(n.get(id));
    r += " it";
    bool all = n.iterate(ModelNode::IterLambda([&](auto&& c) { r += " " + brief(c); return true; }));
    r += all ? " true" : " false";
    for (int stop : {1, 2, 3}) { int k = 0; bool c = n.iterate(ModelNode::IterLambda([&](auto&&) { return ++k != stop; })); r += " " + std::to_string(k) + (c ? "t" : "f"); }
    r += " names"; for (auto f : n.fieldNames()) r += " " + name(f, m);
    r += " fields"; for (auto const& [f, v] : n.fields()) r += " " + name(f, m) + "=" + brief(v);
    r += " range"; for (auto const& v : n) r += " " + brief(v);
    return r;
}
int main()
{
    std::string line;
    while (std::getline(std::cin, line)) {
        auto strs = std::make_shared<StringPool>();
        auto m = std::make_shared<Pool>(strs);
        std::vector<ModelNode::Ptr> H; std::vector<StringId> names;
        std::string out; std::stringstream ops(line); std::string op;
        auto nm = [&](std::string const& h) { auto s = unhex(h); auto i = strs->emplace(s); bool seen = false; for (auto x : names) seen |= x == i; if (!seen) names.push_back(i); return s; };
        while (std::getline(ops, op, ';')) {
            std::stringstream ss(op); std::string k, a, b, c; ss >> k >> a >> b >> c;
            auto L = [](std::string const& s) { return std::stoll(s); };
            std::string r;
            auto push = [&](auto const& p) { H.push_back(p); r = addr(H.back()); };
            auto dbl = [](std::string const& s) { return std::bit_cast<double>((uint64_t)std::stoull(s, nullptr, 16)); };
            try {
                if (k == "i") push(m->newValue((int64_t)L(a)));
                else if (k == "d") push(m->newValue(dbl(a)));
                else if (k == "s") push(m->newValue(std::string_view(unhex(a))));
                else if (k == "b") push(m->newSmallValue(a == "1"));
                else if (k == "h") push(m->newSmallValue((int16_t)L(a)));
                else if (k == "u") push(m->newSmallValue((uint16_t)L(a)));
                else if (k == "o") push(m->newObject(L(a)));
                else if (k == "y") push(m->newArray(L(a)));
                else if (k[0] == 'f') {
                    auto o = m->resolveObject(H.at(L(a))); auto n = nm(b);
                    if (k == "f") o->addField(n, H.at(L(c)));
                    else if (k == "fb") o->addBool(n, c == "1");
                    else if (k == "fi") o->addField(n, (int64_t)L(c));
                    else if (k == "fh") o->addField(n, (int16_t)L(c));
                    else if (k == "fu") o->addField(n, (uint16_t)L(c));
                    else if (k == "fd") o->addField(n, dbl(c));
                    else if (k == "fs") o->addField(n, std::string_view(unhex(c)));
                }
                else if (k[0] == 'p') {
                    auto o = m->resolveArray(H.at(L(a)));
                    if (k == "p") o->append(H.at(L(b)));
                    else if (k == "pb") o->append(b == "1");
                    else if (k == "pi") o->append((int64_t)L(b));
                    else if (k == "ph") o->append((int16_t)L(b));
                    else if (k == "pu") o->append((uint16_t)L(b));
                    else if (k == "pd") o->append(dbl(b));
                    else if (k == "ps") o->append(std::string_view(unhex(b)));
                }
                else if (k == "x") m->resolveObject(H.at(L(a)))->extend(m->resolveObject(H.at(L(b))));
                else if (k == "X") m->resolveArray(H.at(L(a)))->extend(m->resolveArray(H.at(L(b))));
                else if (k == "R") m->addRoot(H.at(L(a)));
                else if (k == "v") r = node(*H.at(L(a)));
                else if (k == "V") r = views(*H.at(L(a)), *m, names);
                else if (k == "O") { auto n = H.at(L(a)); if (n->addr().column() == ModelPool::Objects) r = views(*m->resolveObject(n), *m, names); else r = views(*m->resolveArray(n), *m, names); }
                else if (k == "g") r = brief(m->resolveObject(H.at(L(a)))->get(std::string_view(unhex(b))));
                else if (k == "D") { r = std::to_string(m->numRoots()) + ":"; for (size_t i = 0; i < m->numRoots(); ++i) r += deep(m->root(i), *m) + ";"; for (auto& c : r) if (c == ';') c = '|'; }
                else if (k == "Q") r = brief(m->root(L(a)));
                else if (k == "W") {
                    std::stringstream st, sp; m->write(st); strs->write(sp, 0);
                    auto s2 = std::make_shared<StringPool>(); s2->read(sp);
                    auto m2 = std::make_shared<Pool>(s2); m2->read(st);
                    std::vector<ModelNode::Ptr> H2; for (auto& h : H) H2.push_back(ModelNode::Ptr::make(m2, h->addr()));
                    H.clear(); H = H2; m = m2; strs = s2;
                }
                else if (k == "Z") { // other string pool
                    auto s2 = std::make_shared<StringPool>(); for (int i = 0; i < L(a); ++i) s2->emplace("other" + std::to_string(i));
                    std::vector<std::string> t; for (auto n : names) t.push_back(std::string(*strs->resolve(n)));
                    if (b == "r") for (auto i = t.rbegin(); i != t.rend(); ++i) s2->emplace(*i);
                    m->setStrings(s2); strs = s2; names.clear(); for (auto& n : t) names.push_back(s2->emplace(n));
                    r = m->strings() == s2 ? "" : "pool";
                }
                else if (k == "E") { r = std::to_string(m->checkForErrors().empty() ? 0 : 1); bool t = false; try { m->validate(); } catch (std::exception&) { t = true; } r += t ? "1" : "0"; }
                else if (k == "e") m->rawElement((ArrayIndex)H.at(L(a))->addr().index(), ModelNodeAddress((uint8_t)L(b), (uint32_t)L(c)));
                else if (k == "F") { long long x; ss >> x; m->rawField((ArrayIndex)H.at(L(a))->addr().index(), (StringId)x, ModelNodeAddress((uint8_t)L(b), (uint32_t)L(c))); }
                else if (k == "q") m->addRoot(ModelNode::Ptr::make(m, ModelNodeAddress((uint8_t)L(a), (uint32_t)L(b))));
                else if (k == "J") { auto p = json::parse(unhex(a)); auto show = [](ModelPool& p, size_t i) { return hex(p.root(i)->toJson().dump()) + "," + deep(p.root(i), p); };
                    r = hex(p->root(0)->toJson().dump()) + "," + hex(p->toJson().dump()) + "," + deep(p->root(0), *p);
                    auto p2 = std::make_shared<ModelPool>(); json::parse(unhex(a), p2); std::istringstream is(unhex(a)); json::parse(is, p2); // the other two overloads
                    if (p2->numRoots() != 2) r = "roots " + std::to_string(p2->numRoots()); else for (size_t i : {0, 1}) if (auto x = show(*p2, i); x != show(*p, 0)) r = "overload " + std::to_string(i) + " gives " + x; }
                else if (k == "j") r = hex(H.at(L(a))->toJson().dump());
                else if (k == "A") { // address arithmetic
                    ModelNodeAddress x((uint8_t)L(a), (uint32_t)L(b)); r = std::to_string(x.column()) + "." + std::to_string(x.index()) + "." + std::to_string(x.uint16()) + "." + std::to_string(x.int16()) + "." + (x ? "1" : "0");
                    x.setColumn((uint8_t)L(c)); r += "." + std::to_string(x.column()) + "." + std::to_string(x.index());
                }
                else if (k == "c") { m->clear(); H.clear(); r = std::to_string(m->numRoots()); }
                else r = "?";
            } catch (std::exception const& e) { r = "error"; }
            out += r + ";";
        }
        std::cout << out << std::endl;
    }
}
