// Networks for physical design and what the drivers of physical design share.
#pragma once
#include "nets.hpp"
#include "snap.hpp"

#include <fiction/types.hpp>
#include <mockturtle/algorithms/cleanup.hpp>

template <class B>
using gate_lyt = gate_level_layout<clocked_layout<tile_based_layout<B>>>;
using Off  = gate_lyt<cartesian_layout<offset::ucoord_t>>;

using tec  = technology_network;
using ntec = mockturtle::names_view<technology_network>;
using aigs = mockturtle::names_view<mockturtle::aig_network>;
using migs = mockturtle::names_view<mockturtle::mig_network>;
using xags = mockturtle::names_view<mockturtle::xag_network>;

// networks without outputs that are constant, since these cannot be placed
template <class Ntk>
bool constant_po(const Ntk& n)
{
    bool b = false;
    n.foreach_po([&](const auto& f) { b = b || n.is_constant(n.get_node(f)); });
    return b;
}
template <class Ntk>
Ntk random_net(vp::Rng& r, int max_pis, int max_gates, bool majs)
{
    for (;;)
    {
        Ntk n{};
        if constexpr (mockturtle::has_set_network_name_v<Ntk>) if (r.chance(70)) n.set_network_name("top" + std::to_string(r.below(9)));
        NetGen<Ntk> g{n, r};
        g.three = false, g.majs = majs;
        const bool named = r.chance(60);
        const bool chain = std::is_base_of_v<technology_network, Ntk> && r.chance(12);  // long and thin
        for (int64_t i = 0, m = chain ? r.in(1, 2) : r.in(1, max_pis); i < m; ++i)
            if constexpr (requires { n.create_pi(std::string{}); }) g.s.push_back(named ? n.create_pi(r.chance(85) ? "in" + std::to_string(i) : "") : n.create_pi());
            else g.s.push_back(n.create_pi());
        for (int64_t i = 0, m = r.in(0, max_gates); i < m; ++i)
        {
            if constexpr (std::is_base_of_v<technology_network, Ntk>)
                if (r.chance(8))
                {
                    const auto k = n.get_constant(r.chance(50));
                    std::vector v{g.pick(false), g.pick(false), k};
                    r.shuffle(v);
                    g.s.push_back(n.create_maj(v[0], v[1], v[2]));
                    continue;
                }
            if constexpr (std::is_base_of_v<technology_network, Ntk>)
                if (chain && i > 0 && r.chance(85))
                {
                    g.s.push_back(n.create_not(g.s.back()));
                    continue;
                }
            g.s.push_back(g.gate(false));
        }
        for (int64_t i = 0, m = chain ? 1 : r.in(1, 3); i < m; ++i)
        {
            const auto f = i == 0 ? g.s.back() : g.pick(false);
            const auto o = !named || r.chance(10) ? "" : "out" + std::to_string(i);
            if constexpr (requires { n.create_po(f, std::string{}); }) n.create_po(f, o);
            else n.create_po(f);
        }
        if (!constant_po(n)) return n;
    }
}
template <class S>
J stats(const S& s)
{
    return J::array({static_cast<int64_t>(s.x_size), static_cast<int64_t>(s.y_size), static_cast<int64_t>(s.num_gates), static_cast<int64_t>(s.num_wires), static_cast<int64_t>(s.num_crossings)});
}
template <class Ntk>
J net_part(const Ntk& n)
{
    std::map<uint64_t, int> ids;
    const auto d = ndoc(n, &ids);
    return {{"net", d}, {"names", names_of(n, ids)}, {"named", mockturtle::has_has_name_v<Ntk>}};
}
