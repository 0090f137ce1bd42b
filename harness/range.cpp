// u a b limit: unpack (stopping after limit values, 0: never, at most 2000)   e a b v: v == range   r a b c d: range == range
#include "simfil/types.h"
#include "simfil/operator.h"
#include <iostream>
#include <sstream>
using namespace simfil;
int main()
{
    std::string line;
    while (std::getline(std::cin, line)) {
        std::stringstream ss(line); std::string k; int64_t a, b, c, d; ss >> k >> a >> b;
        std::string out;
        try {
            Value r = IRangeType::Type.make(a, b);
            auto bin = [&](auto op, Value const& x, Value const& y) { Value v = BinaryOperatorDispatcher<decltype(op)>::dispatch(x, y); return v.isa(ValueType::Bool) ? (v.as<ValueType::Bool>() ? "1" : "0") : "?"; };
            if (k == "u" || k == "q") {
                int64_t lim = 0; if (k == "u") ss >> lim;
                auto const& obj = r.as<ValueType::TransientObject>();
                int64_t n = 0; bool stopped = false;
                obj.meta->unpack(obj, [&](Value v) -> bool {
                    if (stopped) out += " after-stop";
                    out += (out.empty() ? "" : " ") + (v.isa(ValueType::Int) ? std::to_string(v.as<ValueType::Int>()) : std::string("?"));
                    n++; if (n == (lim ? lim : 2000)) { stopped = true; return false; }
                    return true; });
            } else if (k == "e") { ss >> c; Value v = Value::make(c); out = std::string(bin(OperatorEq(), r, v)) + bin(OperatorEq(), v, r) + bin(OperatorNeq(), r, v) + bin(OperatorNeq(), v, r); }
            else if (k == "r") { ss >> c >> d; Value v = IRangeType::Type.make(c, d); out = std::string(bin(OperatorEq(), r, v)) + bin(OperatorNeq(), r, v); }
            else { auto t = UnaryOperatorDispatcher<OperatorTypeof>::dispatch(r); auto q = UnaryOperatorDispatcher<OperatorBool>::dispatch(r); auto s = UnaryOperatorDispatcher<OperatorAsString>::dispatch(r); UnaryOperatorDispatcher<OperatorLen>::dispatch(r);
                out = t.toString() + " " + q.toString() + " " + s.toString(); }
        } catch (std::exception const& e) { out = std::string("error: ") + e.what(); }
        std::cout << out << "\n";
    }
}
