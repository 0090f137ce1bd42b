// Runs sequences of operations on user-defined values with instrumented types; reports misuse of payloads.
#include "simfil/value.h"
#include "simfil/types.h"
#include "simfil/typed-meta-type.h"
#include <iostream>
#include <sstream>
#include <map>
#include <optional>
#include <set>
using namespace simfil;
static std::set<std::string> problems;
static int throwIn = 0;
static void maybeThrow() { if (throwIn && --throwIn == 0) throw std::bad_alloc(); }
static std::map<void*, int*> live;      // raw payloads
struct RawMeta : MetaType {
    RawMeta() : MetaType("raw") {}
    bool check(void* p, const char* what) const { if (live.count(p)) return true; problems.insert(std::string(what) + (p ? " of an object that does not exist" : " of a null object")); return false; }
    auto init() const -> void* override { maybeThrow(); auto* p = new int(0); live[p] = p; return p; }
    auto copy(void* p) const -> void* override { maybeThrow(); int v = check(p, "copy") ? *(int*)p : 0; auto* q = new int(v); live[q] = q; return q; }
    auto deinit(void* p) const -> void override { if (check(p, "destruction")) { live.erase(p); delete (int*)p; } }
    auto unaryOp(std::string_view, const TransientObject&) const -> Value override { return Value::null(); }
    auto binaryOp(std::string_view, const TransientObject&, const Value&) const -> Value override { return Value::null(); }
    auto binaryOp(std::string_view, const Value&, const TransientObject&) const -> Value override { return Value::null(); }
    auto unpack(const TransientObject&, std::function<bool(Value)>) const -> void override {}
};
struct Reg {
    static std::set<const Reg*> all;
    int v = 0;
    Reg() { maybeThrow(); all.insert(this); }
    Reg(Reg const& o) { maybeThrow(); if (!all.count(&o)) problems.insert("copy of an object that does not exist"); else v = o.v; all.insert(this); }
    ~Reg() { if (!all.erase(this)) problems.insert("destruction of an object that does not exist"); }
};
std::set<const Reg*> Reg::all;
struct RegMeta : TypedMetaType<Reg> {
    RegMeta() : TypedMetaType("reg") {}
    using TypedMetaType::unaryOp; using TypedMetaType::binaryOp;
    auto unaryOp(std::string_view, const Reg&) const -> Value override { return Value::null(); }
    auto binaryOp(std::string_view, const Reg&, const Value&) const -> Value override { return Value::null(); }
    auto binaryOp(std::string_view, const Value&, const Reg&) const -> Value override { return Value::null(); }
};
static RawMeta raw; static RegMeta reg;
static std::string show(TransientObject const& t)
{
    if (!t.meta && !t.data) return "e";
    if (t.meta == &raw) { if (!live.count(t.data)) { problems.insert("a value refers to an object that does not exist"); return "!"; } return "r0:" + std::to_string(*(int*)t.data); }
    if (t.meta == &reg) { if (!Reg::all.count((Reg*)t.data)) { problems.insert("a value refers to an object that does not exist"); return "!"; }
        auto p = reg.get(t); if ((void*)p != t.data) problems.insert("TypedMetaType::get"); return "r1:" + std::to_string(p->v); }
    problems.insert("a value has only one of type and object"); return "!";
}
int main()
{
    std::string line;
    while (std::getline(std::cin, line)) {
        problems.clear(); throwIn = 0;
        std::string res;
        {
            std::optional<TransientObject> o[4]; std::optional<Value> v[4];
            auto objects = [&]{ std::set<void*> own; size_t n = 0; auto add = [&](TransientObject const& t) { if (t.data) { n++; own.insert(t.data); } };
                for (auto& x : o) if (x) { show(*x); add(*x); }
                for (auto& x : v) if (x && std::holds_alternative<TransientObject>(x->value)) { show(std::get<TransientObject>(x->value)); add(std::get<TransientObject>(x->value)); }
                if (own.size() != n) problems.insert("two values share one object");
                if (live.size() + Reg::all.size() != own.size()) problems.insert(live.size() + Reg::all.size() > own.size() ? "an object without an owner" : "an owner without an object"); };
            std::stringstream ops(line); std::string op;
            while (problems.empty() && std::getline(ops, op, ';')) {
                std::stringstream ss(op); std::string k; int i = 0, j = 0; ss >> k;
                if (k == "t") { ss >> throwIn >> k; }
                std::string a2; ss >> i >> a2; if (!a2.empty() && isdigit(a2[0])) j = std::stoi(a2);
                try {
                    if (k == "n") { o[i].reset(); o[i].emplace(a2 == "r0" ? (const MetaType*)&raw : &reg); }
                    else if (k == "d") o[i].reset();
                    else if (k == "D") v[i].reset();
                    else if (k == "w") { if (o[i] && o[i]->data) { if (o[i]->meta == &raw) *(int*)o[i]->data = j; else reg.get(*o[i])->v = j; } }
                    else if (k == "c") { if (i != j && o[j]) { o[i].reset(); o[i].emplace(*o[j]); } }
                    else if (k == "m") { if (i != j && o[j]) { o[i].reset(); o[i].emplace(std::move(*o[j])); } }
                    else if (k == "a") { if (o[i] && o[j]) *o[i] = *o[j]; }
                    else if (k == "M") { if (o[i] && o[j]) *o[i] = std::move(*o[j]); }
                    else if (k == "V") { if (o[j]) v[i].emplace(ValueType::TransientObject, TransientObject(*o[j])); }
                    else if (k == "W") { if (v[j] && std::holds_alternative<TransientObject>(v[j]->value)) o[i].emplace(std::get<TransientObject>(v[j]->value)); }
                    else if (k == "C") { if (i != j && v[j]) { v[i].reset(); v[i].emplace(*v[j]); } }
                    else if (k == "A") { if (v[i] && v[j]) *v[i] = *v[j]; }
                    else if (k == "x") { if (i != j && v[j]) { v[i].reset(); v[i].emplace(std::move(*v[j])); } }
                    else if (k == "X") { if (i != j && v[i] && v[j]) *v[i] = std::move(*v[j]); }
                } catch (std::bad_alloc const&) {}
                throwIn = 0;
                objects();
            }
            std::string so, sv;
            if (problems.empty()) {
                for (auto& x : o) so += (x ? show(*x) : std::string("-")) + " ";
                for (auto& x : v) sv += (x ? std::holds_alternative<TransientObject>(x->value) ? show(std::get<TransientObject>(x->value)) : std::string("e") : std::string("-")) + " ";
            }
            res = "|" + so + "|" + sv;
        }
        if (problems.empty() && (!live.empty() || !Reg::all.empty())) problems.insert("an object is never destroyed");
        for (auto& [p, q] : live) delete q;
        live.clear(); Reg::all.clear();
        std::string pr; for (auto& s : problems) pr += (pr.empty() ? "" : "; ") + s;
        std::cout << pr << res << "\n";
    }
}
