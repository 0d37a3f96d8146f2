// Clocking schemes, clocked layouts and synchronization element layouts as state machines over several handles.
#include "common.hpp"

#include <fiction/layouts/cartesian_layout.hpp>
#include <fiction/layouts/clocked_layout.hpp>
#include <fiction/layouts/clocking_scheme.hpp>
#include <fiction/layouts/coordinates.hpp>
#include <fiction/layouts/hexagonal_layout.hpp>
#include <fiction/layouts/shifted_cartesian_layout.hpp>
#include <fiction/layouts/synchronization_element_layout.hpp>
#include <fiction/layouts/tile_based_layout.hpp>
#include <fiction/traits.hpp>

#include <optional>

template <class Lyt>
void lookups(const char* arr, vp::Rng& r)
{
    vp::Table t{"lookup", 40};
    const auto probe = [&](const std::string& name, bool known, const std::string& base, int phases)
    {
        vp::note("get_clocking_scheme " + name);
        const auto s = get_clocking_scheme<Lyt>(name);
        J e{{"op", "scheme"}, {"asked", name}, {"known", known}, {"found", s.has_value()}, {"base", base}, {"phases", phases}, {"arr", arr}, {"hex", hex_v<Lyt>}, {"f", Lyt::max_fanin_size}};
        if (s)
        {
            e["name"]   = std::string{s->name};
            e["n"]      = s->num_clocks;
            e["reg"]    = s->is_regular();
            e["maxin"]  = s->max_in_degree;
            e["maxout"] = s->max_out_degree;
            e["linear"] = is_linear_scheme<Lyt>(*s);
            J at = J::array(), clk = J::array();
            for (int k = 0; k < 120; ++k)
            {
                const clock_zone<Lyt> z(k < 100 ? k % 10 : r.below(3000), k < 100 ? k / 10 : r.below(3000), r.below(2));
                at.push_back(js(z));
                clk.push_back((*s)(z));
            }
            e["at"]  = at;
            e["clk"] = clk;
        }
        t.ev(e);
    };
    for (const auto& b : bases)
    {
        std::string low = b, mix = b;
        for (auto& c : low) c = std::tolower(c);
        for (size_t i = 0; i < mix.size(); i += 2) mix[i] = std::tolower(mix[i]);
        for (const auto& n : {b, low, mix})
        {
            probe(n, true, b, default_phases(b));
            if (both(b))
            {
                probe(n + "3", true, b, 3);
                probe(n + "4", true, b, 4);
            }
            else probe(n + "3", false, b, 3);
            probe(n + " ", false, b, 4);
            probe(n.substr(0, n.size() - 1), false, b, 4);
        }
        for (int n : {3, 4})
        {
            if (!both(b) && n != default_phases(b)) continue;
            const auto s = make<Lyt>(b, n);
            J at = J::array(), clk = J::array();
            for (int k = 0; k < 144; ++k)
            {
                const clock_zone<Lyt> z(k % 12, k / 12, r.below(2));
                at.push_back(js(z));
                clk.push_back(s(z));
            }
            t.ev({{"op", "scheme"}, {"asked", b}, {"known", true}, {"found", true}, {"base", b}, {"phases", n}, {"arr", arr}, {"hex", hex_v<Lyt>}, {"f", Lyt::max_fanin_size}, {"name", std::string{s.name}},
                  {"n", s.num_clocks}, {"reg", s.is_regular()}, {"maxin", s.max_in_degree}, {"maxout", s.max_out_degree}, {"linear", is_linear_scheme<Lyt>(s)}, {"at", at}, {"clk", clk}});
        }
    }
    for (const auto* n : {"", "3", "USE4 ", "2DDWAVEHEX5", "TWODDWAVE", "OPEN2"}) probe(n, false, "OPEN", 4);
}

template <class Lyt>
constexpr bool se_v = has_synchronization_elements_v<Lyt>;

template <class Lyt>
J observe(const Lyt& l)
{
    J names = J::array(), clk = J::array(), se = J::array();
    for (const auto& b : bases)
        if (l.is_clocking_scheme(b)) names.push_back(b);
    int64_t nse = 0;
    for (int64_t z = 0; z <= static_cast<int64_t>(l.z()); ++z)
        for (int64_t y = 0; y <= static_cast<int64_t>(l.y()); ++y)
            for (int64_t x = 0; x <= static_cast<int64_t>(l.x()); ++x)
            {
                const auto c = l.coord(x, y, z);
                clk.push_back(l.get_clock_number(c));
                if constexpr (se_v<Lyt>)
                {
                    const auto s = l.get_synchronization_element(c);
                    se.push_back(l.is_synchronization_element(c) == (s > 0) ? s : 255);
                }
            }
    if constexpr (se_v<Lyt>) nse = l.num_se();
    return {{"X", l.x()}, {"Y", l.y()}, {"Z", l.z()}, {"name", names}, {"n", l.num_clocks()}, {"reg", l.is_regularly_clocked()}, {"clk", clk}, {"se", se}, {"nse", nse}};
}

template <class Lyt>
J zone(const Lyt& l, int h, vp::Rng& r)
{
    const auto c = l.coord(r.below(l.x() + 1), r.below(l.y() + 1), r.below(l.z() + 1));
    J inc = J::array(), out = J::array(), probe = J::array(), rel = J::array();
    if (r.chance(50))
    {
        for (const auto& z : l.incoming_clocked_zones(c)) inc.push_back(js(z));
        for (const auto& z : l.outgoing_clocked_zones(c)) out.push_back(js(z));
    }
    else
    {
        l.foreach_incoming_clocked_zone(c, [&](const auto& z) { inc.push_back(js(z)); });
        l.foreach_outgoing_clocked_zone(c, [&](const auto& z) { out.push_back(js(z)); });
    }
    for (int k = 0; k < 5; ++k)
    {
        const auto d = k == 0 ? c : l.coord(r.below(l.x() + 1), r.below(l.y() + 1), r.below(l.z() + 1));
        probe.push_back(js(d));
        rel.push_back(J::array({l.is_incoming_clocked(c, d), l.is_outgoing_clocked(c, d)}));
    }
    return {{"h", h}, {"c", js(c)}, {"inc", inc}, {"out", out}, {"id", l.in_degree(c)}, {"od", l.out_degree(c)}, {"dg", l.degree(c)}, {"plain", !se_v<Lyt>}, {"probe", probe}, {"rel", rel}};
}

template <class Lyt>
void machine(const char* arr, vp::Rng& r, int steps)
{
    vp::History      h{"clocked"};
    std::vector<Lyt> l;
    const auto       record = [&](J e)
    {
        J obs = J::array(), zs = J::array();
        for (const auto& x : l) obs.push_back(observe(x));
        for (size_t i = 0; i < l.size(); ++i)
            for (int k = 0; k < 2; ++k) zs.push_back(zone(l[i], static_cast<int>(i) + 1, r));
        e["obs"]   = obs;
        e["zones"] = zs;
        h.ev(e);
    };
    const auto scheme = [&]
    {
        std::string b = r.pick(bases);
        return std::make_pair(b, both(b) ? (r.chance(50) ? 3 : 4) : default_phases(b));
    };
    const auto fresh = [&]
    {
        const int X = r.below(4), Y = r.below(4), Z = r.below(2);
        J         e{{"op", "new"}, {"hex", hex_v<Lyt>}, {"arr", arr}, {"X", X}, {"Y", Y}, {"Z", Z}};
        if (r.chance(20))
        {
            l.emplace_back(typename Lyt::aspect_ratio(X, Y, Z));
            e["name"] = "OPEN";
            e["n"]    = 4;
        }
        else
        {
            const auto [b, n] = scheme();
            l.emplace_back(typename Lyt::aspect_ratio(X, Y, Z), make<Lyt>(b, n));
            e["name"] = b;
            e["n"]    = n;
        }
        record(e);
    };
    fresh();
    for (int s = 0; s < steps; ++s)
    {
        const auto i = r.below(l.size());
        auto&      x = l[i];
        const int  H = static_cast<int>(i) + 1;
        switch (r.below(se_v<Lyt> ? 12 : 8))
        {
            case 0:
                if (l.size() < 5) { vp::note("copy"); Lyt y{x}; l.push_back(y); record({{"op", "copy"}, {"h", H}}); }
                break;
            case 1:
                if (l.size() < 5) { vp::note("clone"); l.push_back(x.clone()); record({{"op", "clone"}, {"h", H}}); }
                break;
            case 2:
            {
                const auto [b, n] = scheme();
                vp::note("replace " + b);
                x.replace_clocking_scheme(make<Lyt>(b, n));
                record({{"op", "replace"}, {"h", H}, {"name", b}, {"n", n}});
                break;
            }
            case 3:
            {
                if (!r.chance(40)) break;
                const int X = r.below(5), Y = r.below(5), Z = r.below(2);
                x.resize(typename Lyt::aspect_ratio(X, Y, Z));
                record({{"op", "resize"}, {"h", H}, {"X", X}, {"Y", Y}, {"Z", Z}});
                break;
            }
            case 4:
            case 5:
            case 6:
            case 7:
            {
                const auto c = x.coord(r.below(x.x() + 1), r.below(x.y() + 1), r.below(x.z() + 1));
                const int  k = r.below(8);
                if (r.chance(20))
                {
                    // a scheme obtained by value is a value
                    auto cs = x.get_clocking_scheme();
                    cs.override_clock_number(c, static_cast<uint8_t>(k + 1));
                }
                x.assign_clock_number(c, static_cast<uint8_t>(k));
                record({{"op", "assign"}, {"h", H}, {"c", js(c)}, {"k", k}});
                break;
            }
            default:
                if constexpr (se_v<Lyt>)
                {
                    const auto c = x.coord(r.below(x.x() + 1), r.below(x.y() + 1), r.below(x.z() + 1));
                    const int  k = r.below(3);
                    x.assign_synchronization_element(c, static_cast<uint8_t>(k));
                    record({{"op", "se"}, {"h", H}, {"c", js(c)}, {"k", k}});
                }
        }
        if (l.size() < 5 && r.chance(3)) fresh();
    }
    h.close();
}

template <class Lyt>
void all(const char* arr)
{
    vp::Rng r{vp::seed * 977 + sizeof(Lyt) + (se_v<Lyt> ? 7 : 0) + arr[0]};
    if (vp::is_mode("schemes")) lookups<Lyt>(arr, r);
    if (vp::is_mode("layouts"))
        for (int k = 0; k < (vp::thorough ? 150 : 12); ++k) machine<Lyt>(arr, r, vp::thorough ? 60 : 30);
}

int main(int argc, char** argv)
{
    vp::init(argc, argv);
    using U = offset::ucoord_t;
    using C = tile_based_layout<clocked_layout<cartesian_layout<U>>>;
    all<clocked_layout<cartesian_layout<U>>>("cart");
    all<clocked_layout<cartesian_layout<cube::coord_t>>>("cart");
    all<clocked_layout<hexagonal_layout<U, odd_row_hex>>>("odd_row");
    all<clocked_layout<hexagonal_layout<U, even_row_hex>>>("even_row");
    all<clocked_layout<hexagonal_layout<U, odd_column_hex>>>("odd_col");
    all<clocked_layout<hexagonal_layout<U, even_column_hex>>>("even_col");
    all<clocked_layout<shifted_cartesian_layout<U, odd_column_cartesian>>>("odd_col");
    all<synchronization_element_layout<clocked_layout<cartesian_layout<U>>>>("cart");
    all<synchronization_element_layout<clocked_layout<hexagonal_layout<U, even_row_hex>>>>("even_row");
    return vp::finish();
}
