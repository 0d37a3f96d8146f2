// A layout as a document: everything the specification needs to know about it (see Doc.tla), and random gate-level
// layouts that are grown tile by tile along the clocking.
#pragma once
#include "common.hpp"

#include <fiction/layouts/cartesian_layout.hpp>
#include <fiction/layouts/clocked_layout.hpp>
#include <fiction/layouts/gate_level_layout.hpp>
#include <fiction/layouts/shifted_cartesian_layout.hpp>
#include <fiction/layouts/tile_based_layout.hpp>
#include <kitty/bit_operations.hpp>
#include <kitty/dynamic_truth_table.hpp>

#include <map>
#include <set>
#include <unordered_map>

template <class TT>
J ttbits(const TT& t)
{
    J a = J::array();
    for (uint64_t i = 0; i < t.num_bits(); ++i) a.push_back(static_cast<int>(kitty::get_bit(t, i)));
    return a;
}

template <class Lyt>
std::vector<coordinate<Lyt>> all_tiles(const Lyt& x)
{
    std::vector<coordinate<Lyt>> v;
    for (uint64_t z = 0; z <= static_cast<uint64_t>(x.z()); ++z)
        for (uint64_t y = 0; y <= static_cast<uint64_t>(x.y()); ++y)
            for (uint64_t c = 0; c <= static_cast<uint64_t>(x.x()); ++c) v.emplace_back(c, y, z);
    return v;
}
template <class Lyt>
const char* arr_of()
{
    if constexpr (requires { typename Lyt::hex_arrangement; })
    {
        using A = typename Lyt::hex_arrangement;
        if constexpr (std::is_same_v<A, odd_row_hex>) return "odd_row";
        else if constexpr (std::is_same_v<A, even_row_hex>) return "even_row";
        else if constexpr (std::is_same_v<A, odd_column_hex>) return "odd_col";
        else return "even_col";
    }
    else return "cart";
}

// the node numbering of a document: living nodes in ascending order from 2 on
template <class Lyt>
std::unordered_map<uint64_t, uint64_t> doc_numbers(const Lyt& l)
{
    std::unordered_map<uint64_t, uint64_t> m;
    uint64_t k = 2;
    l.foreach_node([&](const auto& n) { if (!l.is_constant(n)) m[n] = k++; });
    return m;
}

template <class Lyt>
J doc(const Lyt& l, const char* arr = arr_of<Lyt>())
{
    J d{{"arr", arr}, {"X", static_cast<int>(l.x())}, {"Y", static_cast<int>(l.y())}, {"Z", static_cast<int>(l.z())}, {"hex", is_hexagonal_layout_v<Lyt>}, {"n", 4}, {"clk", J::array()},
        {"se", J::array()}, {"nd", J::array()}, {"pis", J::array()}, {"pos", J::array()}, {"nm", ""}, {"scheme", ""}};
    if constexpr (is_clocked_layout_v<Lyt>)
    {
        d["n"] = static_cast<int>(l.num_clocks());
        d["scheme"] = l.get_clocking_scheme().name;
        for (const auto& t : all_tiles(l))
        {
            d["clk"].push_back(static_cast<int>(l.get_clock_number(t)));
            if constexpr (has_synchronization_elements_v<Lyt>)
                if (const auto s = l.get_synchronization_element(t); s != 0) d["se"].push_back({js(t), static_cast<int>(s)});
        }
    }
    if constexpr (is_gate_level_layout_v<Lyt>)
    {
        d["nm"] = l.get_layout_name();
        auto num = doc_numbers(l);
        l.foreach_node(
            [&](const auto& n)
            {
                if (l.is_constant(n)) return;
                J ch = J::array();
                const auto f = [&](const auto& s)
                {
                    if (s == l.get_constant(false)) ch.push_back(J::array({-1}));
                    else if (s == l.get_constant(true)) ch.push_back(J::array({-2}));
                    else ch.push_back(js(tile<Lyt>{s}));
                };
                l.template foreach_fanin<decltype(f), false>(n, std::move(f));
                const auto t = l.get_tile(n);
                d["nd"].push_back({{"t", t.is_dead() ? J::array() : js(t)}, {"f", ttbits(l.node_function(n))}, {"ch", ch}, {"nm", l.get_name(static_cast<mockturtle::signal<Lyt>>(t))}});
            });
        l.foreach_pi([&](const auto& n) { d["pis"].push_back(num.count(n) ? num[n] : 0); });
        l.foreach_po([&](const auto& s) { d["pos"].push_back(js(tile<Lyt>{s})); });
    }
    return d;
}

template <class Lyt>
struct Grower
{
    using T = tile<Lyt>;
    using S = mockturtle::signal<Lyt>;
    Lyt&     l;
    vp::Rng& r;
    bool     gates = true;   // or wires only
    int      fan   = 2;      // how many fan-outs a node may get
    uint64_t k     = 0;

    std::vector<T> sources(const T& t)
    {
        std::vector<T> v;
        for (const auto& g : l.incoming_clocked_zones(t))
            for (const auto& c : {l.below(g), g, l.above(g)})
            {
                const T q{c};
                if (l.is_empty_tile(q) || l.is_po_tile(q) || q.x == t.x && q.y == t.y) continue;
                if (std::find(v.begin(), v.end(), q) != v.end()) continue;
                if (l.fanout_size(l.get_node(q)) < static_cast<uint64_t>(l.is_wire_tile(q) && !l.is_pi_tile(q) ? fan : 1)) v.push_back(q);
            }
        return v;
    }
    S create(const std::vector<T>& v, const T& t)
    {
        const auto s = [&](size_t i) { return static_cast<S>(v[i]); };
        switch (v.size())
        {
            case 1: return gates && r.chance(30) ? l.create_not(s(0), t) : l.create_buf(s(0), t);
            case 2:
                switch (r.below(8))
                {
                    case 0: return l.create_or(s(0), s(1), t);
                    case 1: return l.create_nand(s(0), s(1), t);
                    case 2: return l.create_nor(s(0), s(1), t);
                    case 3: return l.create_xor(s(0), s(1), t);
                    case 4: return l.create_xnor(s(0), s(1), t);
                    case 5: return l.create_lt(s(0), s(1), t);
                    case 6: return l.create_ge(s(0), s(1), t);
                    default: return l.create_and(s(0), s(1), t);
                }
            default: return l.create_maj(s(0), s(1), s(2), t);
        }
    }
    void grow(int pis, int steps, int po_pct)
    {
        for (int i = 0; i < pis; ++i)
        {
            const T t(r.below(l.x() + 1), r.below(l.y() + 1), 0);
            if (l.is_empty_tile(t)) l.create_pi(r.chance(50) ? "" : "a" + std::to_string(k++), t);
        }
        for (int i = 0; i < steps; ++i)
        {
            T t(r.below(l.x() + 1), r.below(l.y() + 1), 0);
            if (!l.is_empty_tile(t))
            {
                const auto n = l.get_node(t);
                if (l.z() == 0 || !l.is_wire(n) || l.is_pi(n) || l.is_po(n) || l.fanout_size(n) > 1) continue;
                t = T{l.above(t)};
                if (!l.is_empty_tile(t)) continue;
            }
            auto v = sources(t);
            if (v.empty()) continue;
            r.shuffle(v);
            const bool wire = t.z > 0 || !gates || r.chance(40);
            size_t a = wire ? 1 : 1 + r.below(v.size() > 3 ? 3 : v.size());
            v.resize(a);
            if (t.z > 0) l.create_buf(static_cast<S>(v[0]), t);
            else if (r.chance(po_pct)) l.create_po(static_cast<S>(v[0]), r.chance(50) ? "" : "f" + std::to_string(k++), t);
            else if (wire) l.create_buf(static_cast<S>(v[0]), t);
            else create(v, t);
        }
    }
};
