// Drives the Cartesian, shifted Cartesian and hexagonal tile grids and records every direction, neighbour, border and
// enumeration they report; spec/T_Topology.tla decides.
#include "vp.hpp"

#include <fiction/layouts/cartesian_layout.hpp>
#include <fiction/layouts/coordinates.hpp>
#include <fiction/layouts/hexagonal_layout.hpp>
#include <fiction/layouts/shifted_cartesian_layout.hpp>

using namespace fiction;
using vp::J;

template <class C>
J js(const C& c)
{
    return J::array({static_cast<int64_t>(c.x), static_cast<int64_t>(c.y), static_cast<int64_t>(c.z)});
}

template <class Lyt>
constexpr bool siqad_v = std::is_same_v<typename Lyt::coordinate, siqad::coord_t>;
template <class Lyt>
constexpr bool deep_v = std::is_same_v<typename Lyt::coordinate, cube::coord_t>;  // more than one crossing layer

template <class Lyt>
J dims(const Lyt& l, const char* op)
{
    return {{"op", op}, {"x", static_cast<int64_t>(l.x())}, {"y", static_cast<int64_t>(l.y())}, {"z", static_cast<int64_t>(l.z())}, {"siqad", siqad_v<Lyt>}, {"area", static_cast<int64_t>(l.area())}};
}

template <class Lyt>
J tile_event(const Lyt& l, const typename Lyt::coordinate& c)
{
    J e{{"op", "tile"}, {"c", js(c)}, {"n", js(l.north(c))}, {"ne", js(l.north_east(c))}, {"e", js(l.east(c))}, {"se", js(l.south_east(c))},
        {"s", js(l.south(c))}, {"sw", js(l.south_west(c))}, {"w", js(l.west(c))}, {"nw", js(l.north_west(c))}, {"u", js(l.above(c))}, {"d", js(l.below(c))}};
    J a = J::array(), f = J::array(), o = J::array();
    for (const auto& x : l.adjacent_coordinates(c)) a.push_back(js(x));
    l.foreach_adjacent_coordinate(c, [&](const auto& x) { f.push_back(js(x)); });
    for (const auto& [x, y] : l.adjacent_opposite_coordinates(c)) o.push_back(J::array({js(x), js(y)}));
    e["adj"]  = a;
    e["adjf"] = f;
    e["opp"]  = o;
    e["border"] = {l.is_at_northern_border(c), l.is_at_eastern_border(c), l.is_at_southern_border(c), l.is_at_western_border(c)};
    e["any"]    = l.is_at_any_border(c);
    e["bn"] = js(l.northern_border_of(c));
    e["be"] = js(l.eastern_border_of(c));
    e["bs"] = js(l.southern_border_of(c));
    e["bw"] = js(l.western_border_of(c));
    e["ground"]   = l.is_ground_layer(c);
    e["crossing"] = l.is_crossing_layer(c);
    return e;
}

template <class Lyt>
J rel(const Lyt& l, const typename Lyt::coordinate& a, const typename Lyt::coordinate& b)
{
    return {{"op", "rel"}, {"a", js(a)}, {"b", js(b)}, {"n", l.is_north_of(a, b)}, {"e", l.is_east_of(a, b)}, {"s", l.is_south_of(a, b)}, {"w", l.is_west_of(a, b)},
            {"u", l.is_above(a, b)}, {"d", l.is_below(a, b)}, {"nn", l.is_northwards_of(a, b)}, {"ee", l.is_eastwards_of(a, b)}, {"ss", l.is_southwards_of(a, b)},
            {"ww", l.is_westwards_of(a, b)}, {"adj", l.is_adjacent_of(a, b)}, {"adje", l.is_adjacent_elevation_of(a, b)}};
}

template <class Lyt>
void iters(vp::History& h, const Lyt& l, vp::Rng& r)
{
    using C = typename Lyt::coordinate;
    std::vector<C> all, ground;
    const auto     list = [](const auto& v) { J q = J::array(); for (const auto& c : v) q.push_back(js(c)); return q; };
    const J        none = J::array();
    l.foreach_coordinate([&](const auto& c) { all.push_back(c); });
    l.foreach_ground_coordinate([&](const auto& c) { ground.push_back(c); });
    std::vector<C> all2, ground2;
    for (const auto c : l.coordinates()) all2.push_back(c);
    for (const auto c : l.ground_coordinates()) ground2.push_back(c);
    const bool any = siqad_v<Lyt>;
    for (const auto* v : {&all, &all2}) h.ev({{"op", "iter"}, {"ground", false}, {"from", none}, {"to", none}, {"any", any}, {"q", list(*v)}});
    for (const auto* v : {&ground, &ground2}) h.ev({{"op", "iter"}, {"ground", true}, {"from", none}, {"to", none}, {"any", any}, {"q", list(*v)}});
    const auto stop_at = r.below(all.size() + 2) + 1;
    size_t     n       = 0;
    l.foreach_coordinate([&](const auto&) { ++n; return n < stop_at; });
    h.ev({{"op", "stop"}, {"after", stop_at}, {"n", n}});
    if (any) return;
    for (int k = 0; k < 3; ++k)
    {
        auto i = r.below(all.size()), j = r.below(all.size());
        if (i > j) std::swap(i, j);
        std::vector<C> q, q2;
        l.foreach_coordinate([&](const auto& c) { q.push_back(c); }, all[i], all[j]);
        for (const auto c : l.coordinates(all[i], all[j])) q2.push_back(c);
        for (const auto* v : {&q, &q2}) h.ev({{"op", "iter"}, {"ground", false}, {"from", js(all[i])}, {"to", js(all[j])}, {"any", false}, {"q", list(*v)}});
        if (i < ground.size() && j < ground.size())
        {
            std::vector<C> g, g2;
            l.foreach_ground_coordinate([&](const auto& c) { g.push_back(c); }, ground[i], ground[j]);
            for (const auto c : l.ground_coordinates(ground[i], ground[j])) g2.push_back(c);
            for (const auto* v : {&g, &g2}) h.ev({{"op", "iter"}, {"ground", true}, {"from", js(ground[i])}, {"to", js(ground[j])}, {"any", false}, {"q", list(*v)}});
        }
    }
}

template <class Lyt, bool Cube>
void grid(const char* arr, int X, int Y, int Z, vp::Rng& r, bool full)
{
    using C = typename Lyt::coordinate;
    if (siqad_v<Lyt>) Z = 1;
    vp::note(std::string("grid ") + arr + " " + std::to_string(X) + " " + std::to_string(Y) + " " + std::to_string(Z));
    vp::History h{"topology", {{"arr", arr}, {"X", X}, {"Y", Y}, {"Z", Z}}};
    Lyt         l{typename Lyt::aspect_ratio(X, Y, siqad_v<Lyt> ? 0 : Z)};
    h.ev(dims(l, "dims"));
    auto observe = [&](int x, int y, int z, bool everything)
    {
        iters(h, l, r);
        std::vector<C> cs;
        for (int k = 0; k <= z; ++k) for (int j = 0; j <= y; ++j) for (int i = 0; i <= x; ++i) cs.push_back(l.coord(i, j, k));
        for (const auto& c : cs)
        {
            if (!everything && !r.chance(40)) continue;
            h.ev(tile_event(l, c));
            if constexpr (Cube)
            {
                h.ev({{"op", "parity"}, {"c", js(c)}, {"r", {l.is_in_odd_row(c), l.is_in_even_row(c), l.is_in_odd_column(c), l.is_in_even_column(c)}}});
                const auto q = l.to_cube_coordinate(c);
                J          nb = J::array();
                l.foreach_adjacent_coordinate(c, [&](const auto& x_) { nb.push_back(js(l.to_cube_coordinate(x_))); });
                const auto b = l.to_offset_coordinate(q);
                h.ev({{"op", "cube"}, {"c", js(c)}, {"q", js(q)}, {"nb", nb}, {"back", J::array({static_cast<int64_t>(b.x), static_cast<int64_t>(b.y)})}});
            }
        }
        const size_t pairs = everything && cs.size() <= 12 ? cs.size() * cs.size() : 60;
        for (size_t p = 0; p < pairs; ++p)
        {
            const auto& a = pairs == 60 ? r.pick(cs) : cs[p / cs.size()];
            // mostly close pairs, or the relations are trivially false
            auto b = pairs == 60 ? r.pick(cs) : cs[p % cs.size()];
            if (pairs == 60 && r.chance(75))
                b = l.coord(std::min<int64_t>(x, std::max<int64_t>(0, int64_t(a.x) + r.in(-1, 1))), std::min<int64_t>(y, std::max<int64_t>(0, int64_t(a.y) + r.in(-1, 1))), r.below(z + 1));
            h.ev(rel(l, a, b));
        }
        for (int p = 0; p < 8; ++p)
        {
            const auto c = l.coord(r.below(x + 3), r.below(y + 3), siqad_v<Lyt> ? r.below(2) : deep_v<Lyt> ? r.below(z + 2) : r.below(z + 2) % 2);
            h.ev({{"op", "bounds"}, {"c", js(c)}, {"r", l.is_within_bounds(c)}});
        }
    };
    observe(X, Y, Z, full);
    const int x2 = r.below(5), y2 = r.below(5), z2 = siqad_v<Lyt> ? 1 : r.below(deep_v<Lyt> ? 4 : 2);
    l.resize(typename Lyt::aspect_ratio(x2, y2, siqad_v<Lyt> ? 0 : z2));
    auto e = dims(l, "resize");
    e["X"] = x2;
    e["Y"] = y2;
    e["Z"] = z2;
    h.ev(e);
    observe(x2, y2, z2, false);
    h.close();
}

template <class Lyt, bool Cube = false>
void grids(const char* arr)
{
    vp::Rng r{vp::seed * 131 + std::hash<std::string>{}(arr) % 1000 + sizeof(Lyt)};
    const int m = vp::thorough ? 5 : 3;
    for (int x = 0; x <= m; ++x)
        for (int y = 0; y <= m; ++y)
            for (int z = 0; z <= (deep_v<Lyt> ? 2 : 1); ++z) grid<Lyt, Cube>(arr, x, y, z, r, x + y <= 5 || vp::thorough);
    for (int k = 0; k < (vp::thorough ? 60 : 6); ++k) grid<Lyt, Cube>(arr, 4 + r.below(9), 4 + r.below(9), r.below(deep_v<Lyt> ? 4 : 2), r, false);
}

int main(int argc, char** argv)
{
    vp::init(argc, argv);
    using U = offset::ucoord_t;
    grids<cartesian_layout<U>>("cart");
    grids<cartesian_layout<cube::coord_t>>("cart");
    grids<cartesian_layout<siqad::coord_t>>("cart");
    grids<hexagonal_layout<U, odd_row_hex>, true>("odd_row");
    grids<hexagonal_layout<U, even_row_hex>, true>("even_row");
    grids<hexagonal_layout<U, odd_column_hex>, true>("odd_col");
    grids<hexagonal_layout<U, even_column_hex>, true>("even_col");
    grids<hexagonal_layout<cube::coord_t, even_row_hex>, true>("even_row");
    grids<shifted_cartesian_layout<U, odd_row_cartesian>>("odd_row");
    grids<shifted_cartesian_layout<U, even_row_cartesian>>("even_row");
    grids<shifted_cartesian_layout<U, odd_column_cartesian>>("odd_col");
    grids<shifted_cartesian_layout<U, even_column_cartesian>>("even_col");
    return vp::finish();
}
