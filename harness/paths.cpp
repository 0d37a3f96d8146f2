// Path finding and distances in layouts with and without clocking, obstructions, and gates.
#include "snap.hpp"

#include <fiction/algorithms/path_finding/a_star.hpp>
#include <fiction/algorithms/path_finding/cost.hpp>
#include <fiction/algorithms/path_finding/distance.hpp>
#include <fiction/algorithms/path_finding/distance_map.hpp>
#include <fiction/algorithms/path_finding/enumerate_all_paths.hpp>
#include <fiction/algorithms/path_finding/k_shortest_paths.hpp>
#include <fiction/layouts/obstruction_layout.hpp>

#include <cmath>

template <class P>
J jp(const P& p)
{
    J a = J::array();
    for (const auto& c : p) a.push_back(js(c));
    return a;
}
template <class Lyt>
struct weighted : cost_functor<Lyt, uint8_t>
{
    weighted() : cost_functor<Lyt, uint8_t>([](const coordinate<Lyt>& a, const coordinate<Lyt>& c) { return static_cast<uint8_t>(1 + (a.x * 7 + a.y * 6 + c.x * 5 + c.y * 3 + a.x * c.y) % 5); }) {}
};
// the three arms below see one layout type each: the layout itself, or the layout with obstructions
template <class Lyt>
struct Queries
{
    const Lyt&   l;
    vp::Rng&     r;
    vp::History& h;
    const char*  arr;
    bool         euclid_ok;  // Manhattan distance is admissible
    using C    = coordinate<Lyt>;
    using Path = layout_coordinate_path<Lyt>;

    // pairs of tiles on either side of a wire in use
    std::vector<std::pair<C, C>> across{};
    bool must = false;  // cross wires
    void find_across()
    {
        if constexpr (is_gate_level_layout_v<Lyt>)
            for (const auto& c : all_tiles(l))
                if (c.z == 0 && l.is_wire_tile(c) && !l.is_pi_tile(c) && !l.is_po_tile(c) && l.fanout_size(l.get_node(c)) > 0 && l.fanin_size(l.get_node(c)) > 0)
                    for (const auto& a : l.incoming_clocked_zones(c))
                        for (const auto& b : l.outgoing_clocked_zones(c))
                            if (l.is_empty_tile(a) && l.is_empty_tile(b) && !(a == b)) across.emplace_back(a, b);
    }
    std::pair<C, C> ends(bool low1, bool low2)
    {
        if (across.empty() || r.chance(40)) return {any(low1), any(low2)};
        auto p = r.pick(across);
        if (r.chance(40) && !across.empty()) p.second = r.pick(across).second;
        return p;
    }
    C any(bool low = true) { return C(r.below(l.x() + 1), r.below(l.y() + 1), low || l.z() == 0 || !r.chance(20) ? 0 : 1); }
    void obs()
    {
        if constexpr (has_is_obstructed_coordinate_v<Lyt>)
        {
            J b = J::array();
            for (const auto& c : all_tiles(l)) b.push_back(l.is_obstructed_coordinate(c));
            h.ev({{"op", "obs"}, {"bl", b}});
            for (int i = 0; i < 4; ++i)
            {
                const auto a = any(false), c = any(false);
                h.ev({{"op", "obscon"}, {"a", js(a)}, {"b", js(c)}, {"v", l.is_obstructed_connection(a, c)}});
            }
        }
    }
    void star(const C& s, const C& t)
    {
        a_star_params p{};
        p.crossings = must || r.chance(60);
        const bool w = r.chance(40);
        Path q{};
        vp::note("a_star");
        const auto go = [&](const auto& d) { q = w ? a_star<Path>(l, {s, t}, d, weighted<Lyt>(), p) : a_star<Path>(l, {s, t}, d, unit_cost_functor<Lyt, uint8_t>(), p); };
        switch (r.below(euclid_ok ? 4 : 2))
        {
            case 0: go(chebyshev_distance_functor<Lyt, uint64_t>()); break;
            case 1: go(distance_functor<Lyt, uint64_t>([](const Lyt&, const C&, const C&) { return 0ull; })); break;
            case 2: go(euclidean_distance_functor<Lyt, double>()); break;
            default: go(manhattan_distance_functor<Lyt, uint64_t>()); break;
        }
        h.ev({{"op", "astar"}, {"s", js(s)}, {"t", js(t)}, {"x", p.crossings}, {"w", w}, {"p", jp(q)}, {"src", q.empty() ? js(s) : js(q.source())}, {"tgt", q.empty() ? js(t) : js(q.target())}});
    }
    void dist(const C& s, const C& t)
    {
        vp::note("a_star_distance");
        const auto d = a_star_distance<Lyt>(l, s, t);
        const auto f = a_star_distance_functor<Lyt, double>()(l, s, t);
        const bool inf = d == std::numeric_limits<uint64_t>::max();
        h.ev({{"op", "dist"}, {"s", js(s)}, {"t", js(t)}, {"inf", inf}, {"v", inf ? -1 : static_cast<int64_t>(d)}, {"finf", std::isinf(f)}, {"fv", std::isinf(f) ? -1 : static_cast<int64_t>(f)}});
    }
    void all(const C& s, const C& t)
    {
        vp::note("enumerate_all_paths");
        enumerate_all_paths_params p{};
        p.crossings = must || r.chance(60);
        const auto v = enumerate_all_paths<Path>(l, {s, t}, p);
        J a = J::array();
        for (const auto& q : v) a.push_back(jp(q));
        h.ev({{"op", "all"}, {"s", js(s)}, {"t", js(t)}, {"x", p.crossings}, {"p", a}});
    }
    void yen(const C& s, const C& t)
    {
        vp::note("yen_k_shortest_paths");
        yen_k_shortest_paths_params p{};
        p.astar_params.crossings = must || r.chance(60);
        const auto k = static_cast<uint32_t>(r.chance(10) ? 0 : r.in(1, 9));
        const auto v = yen_k_shortest_paths<Path>(l, {s, t}, k, p);
        J a = J::array();
        for (const auto& q : v) a.push_back(jp(q));
        h.ev({{"op", "yen"}, {"s", js(s)}, {"t", js(t)}, {"x", p.astar_params.crossings}, {"k", k}, {"p", a}});
    }
    void metric()
    {
        const auto a = any(false), b = any(false);
        const auto tw = twoddwave_distance_functor<Lyt, uint64_t>()(l, a, b);
        const auto fn = r.chance(50);
        const auto e  = fn ? euclidean_distance_functor<Lyt, double>()(l, a, b) : euclidean_distance<Lyt, double>(l, a, b);
        h.ev({{"op", "metric"}, {"a", js(a)}, {"b", js(b)}, {"man", fn ? manhattan_distance_functor<Lyt>()(l, a, b) : manhattan_distance<Lyt>(l, a, b)},
              {"che", fn ? chebyshev_distance_functor<Lyt>()(l, a, b) : chebyshev_distance<Lyt>(l, a, b)}, {"wav", tw == std::numeric_limits<uint32_t>::max() ? J(-1) : J(tw)},
              {"sq", fn ? squared_euclidean_distance_functor<Lyt>()(l, a, b) : squared_euclidean_distance<Lyt>(l, a, b)}, {"euc", static_cast<int64_t>(std::lround(e * 100))}});
    }
    template <class F>
    void maps(const char* name, const F& f, int n)
    {
        vp::note("distance maps");
        using D = uint64_t;
        const auto dm = initialize_distance_map<Lyt, D>(l, f);
        const auto sm = initialize_sparse_distance_map<Lyt, D>(l, f);
        const distance_map_functor<Lyt, D>        df{dm};
        const sparse_distance_map_functor<Lyt, D> sf{sm};
        const smart_distance_cache_functor<Lyt, D> cf{l, [&](const Lyt& x, const C& a, const C& b) { return f(x, a, b); }};
        const auto v = [](D d) { return d >= std::numeric_limits<uint32_t>::max() ? J(-1) : J(d); };
        J q = J::array();
        for (int i = 0; i < n; ++i)
        {
            const auto a = any(false), b = any(false);
            const auto c1 = cf(l, a, b), c2 = cf(l, a, b);
            q.push_back({js(a), js(b), v(df(l, a, b)), v(sf(l, a, b)), v(c1), v(c2)});
        }
        h.ev({{"op", "map"}, {"f", name}, {"q", q}});
    }
    void run(int n, bool paths)
    {
        find_across();
        const auto with = [&](bool low1, bool low2, const auto& f) { const auto p = ends(low1, low2); f(p.first, p.second); };
        for (int i = 0; i < n; ++i)
        {
            with(true, false, [&](const C& s, const C& t) { star(s, t); });
            if (r.chance(40)) with(true, true, [&](const C& s, const C& t) { star(s, t); });
            dist(any(), any());
            if (paths) with(true, true, [&](const C& s, const C& t) { all(s, t); });
            if (paths) with(true, true, [&](const C& s, const C& t) { yen(s, t); });
            metric();
        }
        must = true;
        r.shuffle(across);
        for (size_t i = 0; i < std::min<size_t>(across.size(), 6); ++i)
        {
            const auto [a, b] = across[i];
            star(a, b);
            if (paths) all(a, b);
            if (paths && r.chance(50)) yen(a, b);
        }
        must = false;
        obs();
        if (r.chance(50)) maps("man", manhattan_distance_functor<Lyt>(), 12);
        if (r.chance(30)) maps("wave", twoddwave_distance_functor<Lyt>(), 12);
        if (r.chance(20)) maps("astar", a_star_distance_functor<Lyt>(), 6);
    }
};

template <class Lyt>
void session(vp::Rng& r, const char* arr, bool cart, bool clocked, const Lyt& base, bool obstructed, bool paths, int n, int pct)
{
    if (!obstructed)
    {
        vp::History h{"paths", {{"doc", doc(base, arr)}, {"clocked", clocked}, {"obst", false}, {"oc", J::array()}, {"on", J::array()}}};
        Queries<Lyt>{base, r, h, arr, cart}.run(n, paths);
        h.close();
        return;
    }
    using O = obstruction_layout<Lyt>;
    O o{base};
    J oc = J::array(), on = J::array();
    const int upper = r.chance(40) ? 35 : 0;  // some layouts have crossings that are taken
    for (const auto& c : all_tiles(base))
        if (static_cast<int>(r.below(100)) < (c.z > 0 && upper > 0 ? upper : pct))
        {
            o.obstruct_coordinate(c);
            oc.push_back(js(c));
        }
    for (const auto& c : all_tiles(base))
        base.foreach_adjacent_coordinate(c, [&](const auto& d) { if (r.chance(6)) { o.obstruct_connection(c, d); on.push_back({js(c), js(d)}); } });
    vp::History h{"paths", {{"doc", doc(base, arr)}, {"clocked", clocked}, {"obst", true}, {"oc", oc}, {"on", on}}};
    Queries<O>{o, r, h, arr, cart}.run(n, paths);
    h.close();
}

template <class Lyt>
void plain(vp::Rng& r, const char* arr, bool cart, int reps, bool paths)
{
    using C = typename Lyt::coordinate;
    for (int i = 0; i < reps; ++i)
    {
        const int big = paths ? 3 : (r.chance(30) ? 11 : 6);
        C c(r.below(static_cast<uint64_t>(big) + 1), r.below(static_cast<uint64_t>(big) + 1), r.chance(40) ? 1 : 0);
        const Lyt l{c};
        session(r, arr, cart, false, l, r.chance(80), paths, paths ? 3 : 6, static_cast<int>(r.pick(std::vector<int>{0, 10, 25, 35})));
    }
}
template <class Lyt>
void clocked(vp::Rng& r, const char* arr, bool cart, int reps, bool paths)
{
    using C = typename Lyt::coordinate;
    for (int i = 0; i < reps; ++i)
    {
        const int big = paths ? 4 : (r.chance(30) ? 11 : 7);
        C c(1 + r.below(static_cast<uint64_t>(big)), 1 + r.below(static_cast<uint64_t>(big)), r.chance(40) ? 1 : 0);
        const auto b = r.pick(bases);
        const int  n = both(b) && r.chance(40) ? 3 : default_phases(b);
        Lyt        l{c, make<Lyt>(b, n)};
        if (b == "OPEN" || r.chance(20))
            for (const auto& t : all_tiles(l))
                if (b == "OPEN" || r.chance(15)) l.assign_clock_number(t, static_cast<typename Lyt::clock_number_t>(r.below(static_cast<uint64_t>(n))));
        session(r, arr, cart, true, l, r.chance(60), paths, paths ? 3 : 6, static_cast<int>(r.pick(std::vector<int>{0, 10, 20, 30})));
    }
}
template <class Lyt>
void gates(vp::Rng& r, const char* arr, bool cart, int reps, bool paths)
{
    using C = typename Lyt::coordinate;
    for (int i = 0; i < reps; ++i)
    {
        const int big = paths ? 4 : 6;
        C c(2 + r.below(static_cast<uint64_t>(big - 1)), 2 + r.below(static_cast<uint64_t>(big - 1)), r.chance(85) ? 1 : 0);
        auto b = r.pick(bases);
        if (r.chance(40)) b = cart ? "2DDWAVE" : "2DDWAVEHEX";
        const int n = default_phases(b);
        Lyt l{c, make<Lyt>(b, n)};
        if (b == "OPEN")
            for (const auto& t : all_tiles(l)) if (t.z == 0) l.assign_clock_number(t, static_cast<typename Lyt::clock_number_t>(r.below(4)));
        if (r.chance(50))  // wires straight through the layout
            for (int w = 0; w < 2; ++w)
            {
                tile<Lyt> t(r.below(l.x() + 1), r.below(l.y() + 1), 0);
                if (!l.is_empty_tile(t)) continue;
                auto       sig = l.create_pi("", t);
                const auto dir = r.below(6);
                for (int q = 0; q < 8; ++q)
                {
                    const auto v = l.outgoing_clocked_zones(t);
                    if (v.empty()) break;
                    const tile<Lyt> nx{v[dir % v.size()]};
                    if (!l.is_empty_tile(nx)) break;
                    t   = nx;
                    sig = l.create_buf(sig, t);
                }
            }
        Grower<Lyt>{l, r, r.chance(50)}.grow(static_cast<int>(r.in(1, 4)), static_cast<int>(r.in(5, 60)), static_cast<int>(r.below(15)));
        session(r, arr, cart, true, l, r.chance(90), paths, paths ? 3 : 8, static_cast<int>(r.pick(std::vector<int>{0, 0, 8})));
    }
}

int main(int argc, char** argv)
{
    vp::init(argc, argv);
    vp::Rng r{vp::seed * 131 + 7};
    const bool paths = vp::is_mode("paths");
    const int  k     = vp::thorough ? 6 : 1;
    using O = offset::ucoord_t;
    using U = cube::coord_t;
    plain<cartesian_layout<O>>(r, "cart", true, 40 * k, paths);
    plain<cartesian_layout<U>>(r, "cart", true, 25 * k, paths);
    plain<hexagonal_layout<O, odd_row_hex>>(r, "odd_row", false, 20 * k, paths);
    plain<hexagonal_layout<U, even_row_hex>>(r, "even_row", false, 15 * k, paths);
    plain<hexagonal_layout<O, odd_column_hex>>(r, "odd_col", false, 15 * k, paths);
    plain<hexagonal_layout<O, even_column_hex>>(r, "even_col", false, 15 * k, paths);
    plain<shifted_cartesian_layout<O, odd_column_cartesian>>(r, "odd_col", false, 15 * k, paths);
    clocked<clocked_layout<cartesian_layout<O>>>(r, "cart", true, 40 * k, paths);
    clocked<clocked_layout<hexagonal_layout<O, even_row_hex>>>(r, "even_row", false, 25 * k, paths);
    gates<gate_level_layout<clocked_layout<tile_based_layout<cartesian_layout<O>>>>>(r, "cart", true, 80 * k, paths);
    gates<gate_level_layout<clocked_layout<tile_based_layout<hexagonal_layout<O, even_row_hex>>>>>(r, "even_row", false, 50 * k, paths);
    return vp::finish();
}
