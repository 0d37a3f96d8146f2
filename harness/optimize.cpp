// Post-layout optimization and wiring reduction.
#include "placed.hpp"

#include <fiction/algorithms/physical_design/graph_oriented_layout_design.hpp>
#include <fiction/algorithms/physical_design/hexagonalization.hpp>
#include <fiction/algorithms/physical_design/orthogonal.hpp>
#include <fiction/algorithms/physical_design/post_layout_optimization.hpp>
#include <fiction/algorithms/physical_design/wiring_reduction.hpp>

template <class Lyt, class Ntk>
std::optional<Lyt> source(vp::Rng& r)
{
    const auto n = random_net<Ntk>(r, 4, static_cast<int>(r.pick(std::vector<int>{2, 5, 9, 14})), false);
    try
    {
        if (r.chance(75))
        {
            orthogonal_physical_design_params p{};
            if (r.chance(25)) p.number_of_clock_phases = num_clks::THREE;
            return orthogonal<Lyt>(n, p);
        }
        graph_oriented_layout_design_params g{};
        g.mode = graph_oriented_layout_design_params::effort_mode::HIGH_EFFICIENCY, g.timeout = 100, g.return_first = true, g.seed = static_cast<uint32_t>(r.below(1000));
        return graph_oriented_layout_design<Lyt>(n, g);
    }
    catch (const high_degree_fanin_exception&) { return std::nullopt; }
}

template <class Lyt, class Ntk>
void optimize(vp::Rng& r)
{
    const auto src = source<Lyt, Ntk>(r);
    if (!src) return;
    const Lyt& l = *src;
    vp::History h{"design", {{"x", 0}}};
    auto before = doc(l);
    for (int64_t k = 0, m = r.pick(std::vector<int>{1, 1, 2, 3}); k < m; ++k)
    {
        J e = {{"a", before}};
        const auto report = [&](const auto& st) { e["st"] = {static_cast<int64_t>(st.x_size_before), static_cast<int64_t>(st.y_size_before), static_cast<int64_t>(st.num_wires_before), static_cast<int64_t>(st.x_size_after), static_cast<int64_t>(st.y_size_after), static_cast<int64_t>(st.num_wires_after)}; };
        const auto cut = r.chance(6);
        if (r.chance(40))
        {
            wiring_reduction_params p{};
            if (cut) p.timeout = static_cast<uint64_t>(r.in(0, 4));
            wiring_reduction_stats st{};
            e["op"] = "reduce";
            vp::note("wiring_reduction");
            wiring_reduction(l, p, &st);
            report(st);
        }
        else
        {
            post_layout_optimization_params p{};
            if (cut) p.timeout = static_cast<uint64_t>(r.in(0, 4));
            if (r.chance(50)) p.max_gate_relocations = static_cast<uint64_t>(r.pick(std::vector<int>{0, 1, 2, 5, 100}));
            p.optimize_pos_only   = r.chance(20);
            p.planar_optimization = r.chance(25);
            post_layout_optimization_stats st{};
            e["op"] = "optimize", e["posonly"] = p.optimize_pos_only, e["planar"] = p.planar_optimization;
            vp::note("post_layout_optimization");
            post_layout_optimization(l, p, &st);
            report(st);
            e["xs"] = {static_cast<int64_t>(st.num_crossings_before), static_cast<int64_t>(st.num_crossings_after)};
        }
        before = doc(l);
        e["d"] = before;
        h.ev(e);
    }
    h.close();
}

using HexE = gate_lyt<hexagonal_layout<offset::ucoord_t, even_row_hex>>;

template <class Lyt, class Ntk, class Hex>
void turn(vp::Rng& r)
{
    using mode = hexagonalization_params::io_pin_extension_mode;
    const auto src = source<Lyt, Ntk>(r);
    if (!src) return;
    const Lyt& l = *src;
    if (r.chance(50)) post_layout_optimization(l);
    vp::History h{"design", {{"x", 0}}};
    hexagonalization_params p{};
    p.input_pin_extension  = r.pick(std::vector{mode::NONE, mode::NONE, mode::EXTEND, mode::EXTEND, mode::EXTEND_PLANAR});
    p.output_pin_extension = r.pick(std::vector{mode::NONE, mode::NONE, mode::EXTEND, mode::EXTEND, mode::EXTEND_PLANAR});
    hexagonalization_stats st{};
    J e = {{"op", "turn"}, {"a", doc(l)}, {"ins", static_cast<int>(p.input_pin_extension)}, {"outs", static_cast<int>(p.output_pin_extension)}};
    vp::note("hexagonalization");
    try
    {
        const auto x = hexagonalization<Hex>(l, p, &st);
        e["d"] = doc(x), e["st"] = stats(st);
    }
    catch (const hexagonalization_io_pin_routing_error&) { e["op"] = "noturn"; }
    e["same"] = doc(l) == e["a"];
    h.ev(e);
    h.close();
}

int main(int argc, char** argv)
{
    vp::init(argc, argv);
    vp::Rng r{vp::seed * 173 + 3};
    if (vp::is_mode("turn"))
    {
        for (int i = 0, n = vp::thorough ? 500 : 60; i < n; ++i)
        {
            turn<Off, ntec, HexE>(r), turn<Off, ntec, HexE>(r);
            turn<cart_gate_clk_lyt, tec, HexE>(r);
            turn<Off, aigs, HexE>(r);
        }
        return vp::finish();
    }
    for (int i = 0, n = vp::thorough ? 400 : 40; i < n; ++i)
    {
        optimize<Off, ntec>(r), optimize<Off, ntec>(r), optimize<Off, ntec>(r);
        optimize<cart_gate_clk_lyt, tec>(r);
        optimize<Off, aigs>(r);
        optimize<Off, xags>(r);
    }
    return vp::finish();
}
