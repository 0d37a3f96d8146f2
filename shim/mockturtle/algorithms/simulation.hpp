// Stand-in for mockturtle/algorithms/simulation.hpp: exhaustive truth-table simulation
#pragma once
#include "../traits.hpp"
#include "../views/topo_view.hpp"
#include <kitty/kitty.hpp>
#include <map>
#include <vector>
namespace mockturtle
{
template <class Ntk>
std::vector<kitty::dynamic_truth_table> vp_simulate(Ntk const& ntk)
{
    const uint32_t n = ntk.num_pis();
    std::map<uint64_t, kitty::dynamic_truth_table> v;
    const kitty::dynamic_truth_table               z(n);
    v[ntk.get_node(ntk.get_constant(false))] = z;
    if (ntk.get_node(ntk.get_constant(true)) != ntk.get_node(ntk.get_constant(false))) v[ntk.get_node(ntk.get_constant(true))] = ~z;
    uint32_t i = 0;
    ntk.foreach_ci([&](auto const& p) { auto t = z; kitty::create_nth_var(t, i++); v[static_cast<node<Ntk>>(p)] = t; });
    topo_view topo{ntk};
    topo.foreach_node(
        [&](auto const& x)
        {
            if (ntk.is_constant(x) || ntk.is_ci(x)) return;
            std::vector<kitty::dynamic_truth_table> in;
            ntk.foreach_fanin(x, [&](auto const& f) { in.push_back(v.at(ntk.get_node(f))); });
            v[x] = ntk.compute(x, in.begin(), in.end());
        });
    std::vector<kitty::dynamic_truth_table> out;
    ntk.foreach_po([&](auto const& f) { const auto& t = v.at(ntk.get_node(f)); out.push_back(ntk.is_complemented(f) ? ~t : t); });
    return out;
}
template <class TT>
struct default_simulator
{
    explicit default_simulator(uint32_t = 0) {}
};
template <class TT, class Ntk, class Sim = default_simulator<TT>>
std::vector<TT> simulate(Ntk const& ntk, Sim const& = Sim()) { return vp_simulate(ntk); }
}  // namespace mockturtle
