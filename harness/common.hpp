// Shared by the layout drivers: coordinates as JSON, clocking schemes by name.
#pragma once
#include "vp.hpp"

#include <fiction/layouts/clocking_scheme.hpp>
#include <fiction/layouts/coordinates.hpp>
#include <fiction/layouts/hexagonal_layout.hpp>
#include <fiction/traits.hpp>

using namespace fiction;
using vp::J;

template <class C>
J js(const C& c)
{
    return J::array({static_cast<int64_t>(c.x), static_cast<int64_t>(c.y), static_cast<int64_t>(c.z)});
}
static const std::vector<std::string> bases{"OPEN", "COLUMNAR", "ROW", "2DDWAVE", "2DDWAVEHEX", "USE", "RES", "ESR", "CFE", "RIPPLE", "SRS", "BANCS"};
static int default_phases(const std::string& b) { return b == "BANCS" ? 3 : 4; }
static bool both(const std::string& b) { return b == "OPEN" || b == "COLUMNAR" || b == "ROW" || b == "2DDWAVE" || b == "2DDWAVEHEX"; }

// shifted Cartesian grids have hexagonal adjacency but are not hexagonal layouts
template <class Lyt>
constexpr bool hex_v = is_hexagonal_layout_v<Lyt>;

template <class Lyt>
clocking_scheme<clock_zone<Lyt>> make(const std::string& b, int n)
{
    const auto k = n == 3 ? num_clks::THREE : num_clks::FOUR;
    if (b == "OPEN") return open_clocking<Lyt>(k);
    if (b == "COLUMNAR") return columnar_clocking<Lyt>(k);
    if (b == "ROW") return row_clocking<Lyt>(k);
    if (b == "2DDWAVE") return twoddwave_clocking<Lyt>(k);
    if (b == "2DDWAVEHEX") return twoddwave_hex_clocking<Lyt>(k);
    if (b == "USE") return use_clocking<Lyt>();
    if (b == "RES") return res_clocking<Lyt>();
    if (b == "ESR") return esr_clocking<Lyt>();
    if (b == "CFE") return cfe_clocking<Lyt>();
    if (b == "RIPPLE") return ripple_clocking<Lyt>();
    if (b == "SRS") return srs_clocking<Lyt>();
    return bancs_clocking<Lyt>();
}

