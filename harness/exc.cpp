// Sequences of installing handlers and raising errors.
#include "simfil/exception-handler.h"
#include "simfil/operator.h"
#include "simfil/model/arena.h"
#include <iostream>
#include <sstream>
#include <thread>
using namespace simfil;
struct Own : std::exception { std::string m; explicit Own(std::string s) : m(std::move(s)) {} const char* what() const noexcept override { return m.c_str(); } };
struct Plain { std::string m; explicit Plain(std::string s) : m(std::move(s)) {} };
struct Two : std::exception { std::string m; Two(std::string s, int n) : m(std::move(s) + std::to_string(n)) {} const char* what() const noexcept override { return m.c_str(); } };
static std::string calls; static bool pending;
static void go(std::string const& k, std::string const& m)
{
    std::string lv = m;
    if (k == "runtime_error") raise<std::runtime_error>(m.c_str());
    if (k == "runtime_error_s") raise<std::runtime_error>(std::string(m));
    if (k == "runtime_error_l") raise<std::runtime_error>(lv);
    if (k == "out_of_range") raise<std::out_of_range>(std::string(m));
    if (k == "overflow_error") raise<std::overflow_error>(m.c_str());
    if (k == "operands") raise<InvalidOperandsError>(std::string_view(m));
    if (k == "own") raise<Own>(std::string(m));
    if (k == "plain") raise<Plain>(std::string(m));
    if (k == "two") raise<Two>(std::string(m), 2);
}
static void inside(std::string const& k)
{
    if (k == "index") { ArrayArena<int> a; auto i = a.new_array(2); a.at(i, 5); }
    if (k == "mod") BinaryOperatorDispatcher<OperatorMod>::dispatch(Value::make((int64_t)1), Value::make((int64_t)0));
    if (k == "arity") BinaryOperatorDispatcher<OperatorAdd>::dispatch(Value::t(), Value::t());
}
static void step(std::string const& op, std::string& out, bool& first)
{
    if (op[0] == 's') { int id = std::stoi(op.substr(1)); ThrowHandler::instance().set([id](std::string const& t, std::string const& m) { calls += (calls.empty() ? "" : "&") + std::to_string(id) + "~" + t + "~" + m + "~" + (pending ? "1" : "0"); }); return; }
    if (op == "c") { ThrowHandler::instance().set({}); return; }
    calls.clear(); pending = true; std::string thrown = "nothing", msg;
    try { if (op[0] == 'o') inside(op.substr(1)); else { auto p = op.find(':'); go(op.substr(1, p - 1), op.substr(p + 1)); } }
    catch (Plain const& e) { pending = false; thrown = typeid(e).name(); msg = e.m; }
    catch (std::exception const& e) { pending = false; thrown = typeid(e).name(); msg = e.what(); }
    catch (...) { pending = false; thrown = "other"; }
    out += std::string(first ? "" : ";") + calls + "|" + thrown + "|" + msg; first = false;
}
int main()
{
    std::string line;
    while (std::getline(std::cin, line)) {
        ThrowHandler::instance().set(nullptr);
        std::stringstream ss(line); std::string op, out; bool first = true;
        while (std::getline(ss, op, ';')) {
            if (op[0] == 't') { std::thread t([&]{ step(op.substr(1), out, first); }); t.join(); } else step(op, out, first);
        }
        std::cout << out << "\n";
    }
}
