// Exact physical design.
#include "placed.hpp"

#include <fiction/algorithms/physical_design/exact.hpp>
#include <fiction/algorithms/physical_design/graph_oriented_layout_design.hpp>
#include <fiction/algorithms/physical_design/orthogonal.hpp>
#include <fiction/utils/network_utils.hpp>

using Hex = gate_lyt<hexagonal_layout<offset::ucoord_t, even_row_hex>>;

// a row of inverters, and the layouts that place it in a straight line
template <class Ntk>
Ntk inverters(int k)
{
    Ntk  n{};
    auto s = n.create_pi();
    for (int i = 0; i < k; ++i) s = n.create_not(s);
    n.create_po(s);
    return n;
}
template <class Lyt>
J line(int k, const std::string& scheme, bool down)
{
    Lyt        l{{down ? 0 : k + 1, down ? k + 1 : 0, 1}, *get_clocking_scheme<Lyt>(scheme)};
    const auto at = [&](int i) { return down ? tile<Lyt>{0, i} : tile<Lyt>{i, 0}; };
    if (!l.is_regularly_clocked())
        for (int i = 0; i <= k + 1; ++i) l.assign_clock_number(at(i), i % 4), l.assign_clock_number(l.above(at(i)), i % 4);
    auto s = l.create_pi("in0", at(0));
    for (int i = 1; i <= k; ++i) s = l.create_not(s, at(i));
    l.create_po(s, "out0", at(k + 1));
    return doc(l);
}

template <class Lyt, class Ntk>
void exact_run(vp::Rng& r, const std::string& scheme, const int row = -1)
{
    auto n = row >= 0 ? inverters<Ntk>(row) : random_net<Ntk>(r, 3, static_cast<int>(r.pick(std::vector<int>{1, 2, 3})), r.chance(10));
    exact_physical_design_params p{};
    p.scheme                   = scheme;
    p.crossings                = r.chance(80);
    p.border_io                = r.chance(60);
    p.synchronization_elements = has_synchronization_elements_v<Lyt> && r.chance(15);
    p.straight_inverters       = r.chance(25);
    p.desynchronize            = r.chance(75);
    p.minimize_wires           = r.chance(15);
    p.minimize_crossings       = r.chance(15);
    p.timeout                  = vp::thorough ? 20000 : 2500;
    p.upper_bound_area         = static_cast<uint16_t>(r.pick(std::vector<int>{12, 16, 20, 25}));
    if (r.chance(20)) p.upper_bound_x = static_cast<uint16_t>(r.in(2, 4));
    if (r.chance(20)) p.upper_bound_y = static_cast<uint16_t>(r.in(2, 4));
    exact_physical_design_stats st{};
    J e = net_part(n);
    const auto cs = *get_clocking_scheme<Lyt>(scheme);
    e["op"] = "exact", e["wide"] = has_high_degree_fanin_nodes(n, cs.max_in_degree), e["scheme"] = cs.name, e["crossings"] = p.crossings, e["border"] = p.border_io, e["sync"] = p.synchronization_elements;
    e["straight"] = p.straight_inverters && has_foreach_adjacent_opposite_tiles_v<Lyt>, e["desync"] = p.desynchronize, e["bounds"] = {p.upper_bound_area, std::min<int>(p.upper_bound_x, 100), std::min<int>(p.upper_bound_y, 100)};
    e["thrown"] = false;
    vp::note("exact");
    const auto t0 = std::chrono::steady_clock::now();
    try
    {
        const auto l = exact<Lyt>(n, p, &st);
        if (l) e["d"] = doc(*l), e["st"] = stats(st);
        else e["op"] = "noexact";
    }
    catch (const high_degree_fanin_exception&) { e["thrown"] = true; }
    const double took = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
    e["timed"] = took * 1000 > p.timeout * 0.8;
    // other layouts of the same network: the specification judges which of them qualify
    e["rivals"] = J::array();
    if constexpr (is_cartesian_layout_v<Lyt>)
    if (cs.name == "2DDWAVE" && !e["thrown"].get<bool>())
    {
        graph_oriented_layout_design_params g{};
        g.mode = graph_oriented_layout_design_params::effort_mode::HIGH_EFFICIENCY, g.timeout = 150, g.planar = !p.crossings, g.straight_inverters = p.straight_inverters, g.seed = 1;
        if (const auto l = graph_oriented_layout_design<Lyt>(n, g)) e["rivals"].push_back(doc(*l));
        e["rivals"].push_back(doc(orthogonal<Lyt>(n)));
    }
    if (row >= 0)
        for (const bool down : {false, true}) e["rivals"].push_back(line<Lyt>(row, scheme, down));
    vp::History h{"design", {{"x", 0}}};
    h.ev(e);
    h.close();
}

int main(int argc, char** argv)
{
    vp::init(argc, argv);
    vp::Rng r{vp::seed * 167 + 11};
    const int n = vp::thorough ? 60 : 7;
    for (int i = 0; i < n; ++i)
    {
        for (const auto* s : {"2DDWAVE", "2DDWAVE", "USE", "RES", "ESR"}) exact_run<Off, ntec>(r, s);
        exact_run<cart_gate_clk_lyt, ntec>(r, "2DDWAVE");
        exact_run<cart_gate_clk_lyt, tec>(r, "USE");
        exact_run<Hex, ntec>(r, "ROW");
        exact_run<Off, aigs>(r, "OPEN");
        exact_run<Off, ntec>(r, r.chance(50) ? "COLUMNAR" : "ROW");
        exact_run<Off, ntec>(r, r.pick(std::vector<std::string>{"COLUMNAR", "ROW", "2DDWAVE", "OPEN"}), static_cast<int>(r.in(0, 3)));
        if (i % 2 == 0) exact_run<Hex, ntec>(r, "ROW", static_cast<int>(r.in(0, 3)));
    }
    return vp::finish();
}
