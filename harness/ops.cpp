// Reads "u|b <op> <operand> [<operand>]" lines and prints the result of the real operator dispatchers.
#include "simfil/operator.h"
#include "simfil/types.h"
#include "simfil/model/model.h"
#include <iostream>
#include <sstream>
#include <cstring>
using namespace simfil;
static std::string hex(std::string const& s){ static const char* d="0123456789abcdef"; std::string r; for(unsigned char c: s){ r+=d[c>>4]; r+=d[c&15]; } return r; }
static std::string unhex(std::string const& s){ std::string r; for(size_t i=0;i+1<s.size();i+=2) r+=(char)std::stoi(s.substr(i,2),nullptr,16); return r; }
static std::shared_ptr<ModelPool> pool;
static Value parse(std::string const& w)
{
    auto x = w.substr(1);
    switch (w[0]) {
    case 'U': return Value::undef();
    case 'N': return Value::null();
    case 'B': return x == "1" ? Value::t() : Value::f();
    case 'I': return Value::make((int64_t)std::stoll(x));
    case 'F': { uint64_t b = std::stoull(x, nullptr, 16); double d; memcpy(&d, &b, 8); return Value::make(d); }
    case 'S': return Value::make(unhex(x));
    case 'O': return Value::field(*pool->newObject(0));
    case 'A': return Value::field(*pool->newArray(0));
    case 'M': return Value::model();
    }
    abort();
}
static std::string print(Value const& v)
{
    switch (v.type) {
    case ValueType::Undef: return "U";
    case ValueType::Null: return "N";
    case ValueType::Bool: return v.as<ValueType::Bool>() ? "B1" : "B0";
    case ValueType::Int: return "I" + std::to_string(v.as<ValueType::Int>());
    case ValueType::Float: { double d = v.as<ValueType::Float>(); uint64_t b; memcpy(&b, &d, 8); char buf[20]; snprintf(buf, 20, "%016llx", (unsigned long long)b); return std::string("F") + buf; }
    case ValueType::String: return "S" + hex(v.as<ValueType::String>());
    case ValueType::TransientObject: return "T";
    case ValueType::Object: return "O";
    case ValueType::Array: return "A";
    }
    return "?";
}
template <class O> static bool bin(std::string const& o, Value const& l, Value const& r, Value& out) { if (o != O::name()) return false; out = BinaryOperatorDispatcher<O>::dispatch(l, r); return true; }
template <class... O> static bool bins(std::string const& o, Value const& l, Value const& r, Value& out) { return (bin<O>(o, l, r, out) || ...); }
template <class O> static bool un(const char* name, std::string const& o, Value const& l, Value& out) { if (o != name) return false; out = UnaryOperatorDispatcher<O>::dispatch(l); return true; }
int main()
{
    pool = std::make_shared<ModelPool>();
    std::string line;
    while (std::getline(std::cin, line)) {
        std::istringstream is(line); std::string k, o, a, b; is >> k >> o >> a;
        try {
            Value out = Value::undef(); auto l = parse(a);
            bool ok;
            if (k == "b") {
                is >> b; auto r = parse(b);
                ok = bins<OperatorAdd, OperatorSub, OperatorMul, OperatorDiv, OperatorMod, OperatorEq, OperatorNeq, OperatorLt, OperatorLtEq, OperatorGt, OperatorGtEq,
                     OperatorSubscript, OperatorBitAnd, OperatorBitOr, OperatorBitXor, OperatorShl, OperatorShr>(o, l, r, out);
            } else
                ok = un<OperatorNegate>("-", o, l, out) || un<OperatorBool>("?", o, l, out) || un<OperatorNot>("not", o, l, out) || un<OperatorBitInv>("~", o, l, out) || un<OperatorLen>("#", o, l, out)
                  || un<OperatorTypeof>("typeof", o, l, out) || un<OperatorAsInt>("int", o, l, out) || un<OperatorAsFloat>("float", o, l, out) || un<OperatorAsString>("string", o, l, out);
            std::cout << (ok ? "OK " + print(out) : std::string("ERR unknown ")) << std::endl;
        }
        catch (std::runtime_error const& e) { std::cout << "ERR runtime_error " << hex(e.what()) << std::endl; }
        catch (std::exception const& e) { std::cout << "ERR other " << hex(typeid(e).name()) << std::endl; }
    }
}
