// Instantiates the members of simfil::ArrayArena for the element type of arrays (a node address) and a 64-bit integer.
#include "simfil/model/arena.h"
#include <cstdint>
#include "../src/exception-handler.cpp"
namespace drv {
using Arena = simfil::ArrayArena<int64_t, 64, 32>;
struct Sink { bool operator()(int64_t& x) const; };
struct SinkIdx { void operator()(int64_t& x, std::size_t i) const; };
struct SinkVoid { void operator()(int64_t& x) const; };
void use(Arena& a, Arena const& c, Sink const& f, SinkIdx const& g, SinkVoid const& h)
{
    auto i = a.new_array(2);
    (void)a.size(); (void)c.size(i);
    a.push_back(i, 1); a.emplace_back(i, 2);
    (void)a.at(i, 0); (void)c.at(i, 0);
    a.iterate(i, f); a.iterate(i, g); a.iterate(i, h);
    a.clear(); a.shrink_to_fit();
    auto b = a.begin(i), e = a.end(i); if (b != e) { (void)*b; ++b; } (void)(b == e);
    auto cb = c.begin(i), ce = c.end(i); if (cb != ce) { (void)*cb; ++cb; } (void)(cb == ce);
    auto r = a.range(i); (void)r.begin(); (void)r.end(); (void)r.size(); (void)r[0];
    auto ab = a.begin(), ae = a.end(); if (ab != ae) { auto q = *ab; (void)q; ++ab; } (void)(ab == ae);
    (void)ab.begin(); (void)ab.end();
    simfil::ArrayArena<int64_t, 64, 32>::ArrayArenaIterator const& cab = ab; (void)cab;
}
}
