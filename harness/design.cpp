// Physical design: from networks to layouts.
#include "placed.hpp"

#include <fiction/algorithms/physical_design/graph_oriented_layout_design.hpp>
#include <fiction/algorithms/physical_design/orthogonal.hpp>
#include <fiction/utils/network_utils.hpp>

template <class Lyt, class Ntk>
void ortho(vp::Rng& r)
{
    const auto n = random_net<Ntk>(r, 4, static_cast<int>(r.pick(std::vector<int>{2, 5, 9, 14})), r.chance(2));
    orthogonal_physical_design_params p{};
    const int ph = r.chance(25) ? 3 : 4;
    p.number_of_clock_phases = ph == 3 ? num_clks::THREE : num_clks::FOUR;
    orthogonal_physical_design_stats st{};
    J e = net_part(n);
    e["op"] = "ortho", e["ph"] = ph, e["wide"] = has_high_degree_fanin_nodes(n, 2);
    vp::note("orthogonal");
    try
    {
        const auto l = orthogonal<Lyt>(n, p, &st);
        e["thrown"] = false, e["d"] = doc(l), e["st"] = stats(st);
    }
    catch (const high_degree_fanin_exception&) { e["thrown"] = true; }
    vp::History h{"design", {{"x", 0}}};
    h.ev(e);
    h.close();
}

template <class Lyt, class Ntk>
void gold(vp::Rng& r, bool threads)
{
    using gp   = graph_oriented_layout_design_params;
    auto     n = random_net<Ntk>(r, 3, static_cast<int>(r.pick(std::vector<int>{2, 4, 6})), r.chance(3));
    gp p{};
    p.mode = r.pick(std::vector{gp::effort_mode::HIGH_EFFICIENCY, gp::effort_mode::HIGH_EFFICIENCY, gp::effort_mode::HIGH_EFFORT, gp::effort_mode::HIGHEST_EFFORT, gp::effort_mode::MAXIMUM_EFFORT});
    p.num_vertex_expansions     = static_cast<uint64_t>(r.in(2, 5));
    p.return_first              = r.chance(50);
    p.timeout                   = vp::thorough ? 1500 : 250;
    p.planar                    = r.chance(15);
    p.cost                      = r.pick(std::vector{gp::cost_objective::AREA, gp::cost_objective::WIRES, gp::cost_objective::CROSSINGS, gp::cost_objective::ACP, gp::cost_objective::CUSTOM});
    p.enable_multithreading     = threads;
    p.seed                      = static_cast<uint32_t>(r.below(1000));
    p.straight_inverters        = r.chance(30);
    p.tiles_to_skip_between_pis = r.chance(30) ? static_cast<uint64_t>(r.in(1, 2)) : 0;
    p.randomize_tiles_to_skip_between_pis = r.chance(30);
    graph_oriented_layout_design_stats st{};
    J e = net_part(n);
    e["op"] = "gold", e["wide"] = has_high_degree_fanin_nodes(n, 2), e["planar"] = p.planar, e["straight"] = p.straight_inverters, e["first"] = p.return_first, e["threads"] = threads, e["cost"] = static_cast<int>(p.cost);
    e["thrown"] = false, e["firstd"] = J::array();
    vp::note("graph_oriented_layout_design");
    std::function<uint64_t(const Lyt&)> custom{};
    if (p.cost == gp::cost_objective::CUSTOM) custom = [](const Lyt& l) { return l.num_gates() + 3 * l.num_wires(); };
    try
    {
        const auto l = graph_oriented_layout_design<Lyt>(n, p, &st, custom);
        if (l && !threads && !p.return_first && r.chance(40))
        {
            auto q = p;
            q.return_first = true;
            if (const auto f = graph_oriented_layout_design<Lyt>(n, q, nullptr, custom)) e["firstd"] = J::array({doc(*f)});
        }
        if (l) e["d"] = doc(*l), e["st"] = stats(st);
        else e["op"] = "nogold";
    }
    catch (const high_degree_fanin_exception&) { e["thrown"] = true; }
    vp::History h{"design", {{"x", 0}}};
    h.ev(e);
    h.close();
}

int main(int argc, char** argv)
{
    vp::init(argc, argv);
    vp::Rng r{vp::seed * 163 + 5};
    const bool th = vp::thorough;
    if (vp::is_mode("ortho"))
    {
        const int n = th ? 300 : 40;
        for (int i = 0; i < n; ++i)
        {
            ortho<Off, ntec>(r), ortho<Off, ntec>(r);
            ortho<Off, tec>(r);
            ortho<cart_gate_clk_lyt, ntec>(r);
            ortho<Off, aigs>(r);
            ortho<Off, migs>(r);
            ortho<Off, xags>(r);
            ortho<Off, mockturtle::aig_network>(r);
        }
    }
    if (vp::is_mode("gold"))
    {
        const int n = vp::thorough ? 100 : 12;
        for (int i = 0; i < n; ++i)
        {
            gold<Off, ntec>(r, false), gold<Off, ntec>(r, i % 4 == 0);
            gold<cart_gate_clk_lyt, tec>(r, false);
            gold<Off, aigs>(r, false);
            gold<Off, migs>(r, false);
        }
    }
    return vp::finish();
}
