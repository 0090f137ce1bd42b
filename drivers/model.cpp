// The model pool, its nodes and the JSON conversion as one translation unit, and instantiations of the node templates.
#include "../src/exception-handler.cpp"
#include "../src/model/nodes.cpp"
#include "../src/model/model.cpp"
#include "../src/model/json.cpp"
namespace drv {
using namespace simfil;
struct Proc : ProceduralObject<2> {
    int64_t use(IterCallback const& cb, StringId f) const { (void)at(0); (void)size(); (void)get(f); (void)keyAt(0); return iterate(cb); }
};
int64_t use(Proc const& p, ModelNode::IterCallback const& cb, Array const& a, Object const& o, Array& wa, Object& wo, ModelNode::Ptr const& x, std::function<bool(ModelNode const&)> const& f)
{
    wa.append(x); wo.addField("n", x);
    for (auto n : o.fieldNames()) (void)n;
    for (auto const& [n, v] : o.fields()) { (void)n; (void)v; }
    for (auto v : o) (void)v;
    (void)a.forEach(f);
    return p.use(cb, 1);
}
}
