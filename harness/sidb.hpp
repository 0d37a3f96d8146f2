// SiDB systems for the conformance drivers: random layouts, and the physics of a layout computed from nothing but the
// positions of its SiDBs and defects.
#pragma once
#include "common.hpp"

#include <fiction/technology/charge_distribution_surface.hpp>
#include <fiction/technology/sidb_charge_state.hpp>
#include <fiction/technology/sidb_defect_surface.hpp>
#include <fiction/technology/sidb_defects.hpp>
#include <fiction/types.hpp>

#include <cmath>
#include <map>

using namespace fiction;
using vp::J;

constexpr double UNIT = 1e8;  // potentials in units of 10 nV
inline int64_t   units(double v) { return std::llround(v * UNIT); }

struct Geometry { double a, b, cx, cy; };
inline const Geometry g100{0.384, 0.768, 0.0, 0.225}, g111{0.665, 0.384, 0.33255, 0.192};

template <class Lyt>
siqad::coord_t at_siqad(const cell<Lyt>& c)
{
    if constexpr (has_siqad_coord_v<Lyt>) return c;
    else return siqad::to_siqad_coord(c);
}
template <class Lyt>
constexpr const Geometry& geometry()
{
    if constexpr (is_sidb_lattice_111_v<Lyt>) return g111;
    else return g100;
}
template <class Lyt>
double away(const cell<Lyt>& p, const cell<Lyt>& q)
{
    const auto& g = geometry<Lyt>();
    const auto  s = at_siqad<Lyt>(p), t = at_siqad<Lyt>(q);
    const auto  x = (s.x - t.x) * g.a + (s.z - t.z) * g.cx, y = (s.y - t.y) * g.b + (s.z - t.z) * g.cy;
    return std::sqrt(x * x + y * y);
}
// potential (V) that a unit charge causes at the given distance (nm): screened Coulomb law
inline double coulomb(double nm, double eps, double lambda) { return nm == 0.0 ? 0.0 : 8.987552e9 * 1.6021766e-19 / (eps * nm * 1e-9) * std::exp(-nm / lambda); }

template <class Lyt>
struct System
{
    using C = cell<Lyt>;
    std::vector<C>                             sites;  // ascending
    std::vector<std::pair<C, sidb_defect>>     defects;
    std::map<C, double>                        ext;
    sidb_simulation_parameters                 p{};
    void sort() { std::sort(sites.begin(), sites.end()); }
    J    V() const
    {
        J m = J::array();
        for (const auto& a : sites)
        {
            J row = J::array();
            for (const auto& b : sites) row.push_back(units(coulomb(away<Lyt>(a, b), p.epsilon_r, p.lambda_tf)));
            m.push_back(row);
        }
        return m;
    }
    J D() const
    {
        J ds = J::array();
        for (const auto& [c, d] : defects)
        {
            J w = J::array(), u = J::array(), x = J::array();
            for (const auto& s : sites) w.push_back(units(coulomb(away<Lyt>(s, c), d.epsilon_r, d.lambda_tf))), u.push_back(units(coulomb(away<Lyt>(s, c), p.epsilon_r, p.lambda_tf)));
            for (const auto& [c2, d2] : defects) x.push_back(units(coulomb(away<Lyt>(c2, c), d2.epsilon_r, d2.lambda_tf)));
            ds.push_back({{"q", d.charge}, {"w", w}, {"u", u}, {"x", x}, {"e", units(ext.count(c) ? ext.at(c) : 0.0)}});
        }
        return ds;
    }
    J S() const
    {
        J e = J::array();
        for (const auto& s : sites) e.push_back(units(ext.count(s) ? ext.at(s) : 0.0));
        return {{"n", sites.size()}, {"V", V()}, {"ext", e}, {"d", D()}, {"lo", units(p.mu_minus)}, {"hi", units(p.mu_minus - 0.59)}};
    }
};

template <class Lyt>
cell<Lyt> at(int64_t x, int64_t y, int64_t z)
{
    const siqad::coord_t c{static_cast<int32_t>(x), static_cast<int32_t>(y), static_cast<uint8_t>(z)};
    if constexpr (has_siqad_coord_v<Lyt>) return c;
    else return siqad::to_fiction_coord<coordinate<Lyt>>(c);
}
inline sidb_simulation_parameters random_params(vp::Rng& r, int base = 0)
{
    sidb_simulation_parameters p{};
    p.base = static_cast<uint8_t>(base != 0 ? base : r.chance(70) ? 3 : 2);
    if (r.chance(50)) p.mu_minus = r.pick(std::vector<double>{-0.32, -0.28, -0.25, -0.2, -0.1, -0.45, 0.05});
    if (r.chance(30)) p.epsilon_r = r.pick(std::vector<double>{5.6, 4.1, 7.3, 9.9, 3.0});
    if (r.chance(30)) p.lambda_tf = r.pick(std::vector<double>{5.0, 1.8, 3.3, 8.0});
    return p;
}
inline sidb_defect random_defect(vp::Rng& r, bool may_be_neutral = true)
{
    const auto q = r.pick(std::vector<int>{-1, -1, 1, 1, may_be_neutral ? 0 : -2, 2});
    const auto t = q == 0 ? r.pick(std::vector{sidb_defect_type::SILOXANE, sidb_defect_type::GUNK, sidb_defect_type::DIHYDRIDE_PAIR}) : r.pick(std::vector{sidb_defect_type::SI_VACANCY, sidb_defect_type::DB, sidb_defect_type::ARSENIC, sidb_defect_type::UNKNOWN});
    return sidb_defect{t, q, r.pick(std::vector<double>{5.6, 5.6, 10.6, 9.7, 4.0}), r.pick(std::vector<double>{5.0, 5.0, 5.9, 2.1})};
}
// places n SiDBs; dense layouts let positive charges occur
template <class Lyt>
std::vector<cell<Lyt>> scatter(vp::Rng& r, int n)
{
    const auto w = r.pick(std::vector<int>{4, 7, 12}), hgt = r.pick(std::vector<int>{1, 3, 6});
    std::set<cell<Lyt>> s{};
    if (r.chance(25))  // pairs of SiDBs in a row
        for (int64_t i = 0, step = r.in(4, 8), gap = r.in(1, 3); static_cast<int>(s.size()) < n; ++i) s.insert(at<Lyt>((i / 2) * step + (i % 2) * gap, 1, 0));
    for (int tries = 0; static_cast<int>(s.size()) < n && tries < 200; ++tries) s.insert(at<Lyt>(r.in(0, w), r.in(0, hgt), r.in(0, 1)));
    return {s.begin(), s.end()};
}
inline int sign(sidb_charge_state s) { return charge_state_to_sign(s); }
template <class CDS>
J charges(const CDS& x)
{
    J c = J::array();
    for (const auto s : x.get_all_sidb_charges()) c.push_back(sign(s));
    return c;
}
