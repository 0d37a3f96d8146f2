// Design rules, equivalence, miters, critical paths, and gate counts.
#include "nets.hpp"
#include "snap.hpp"

#include <fiction/algorithms/physical_design/orthogonal.hpp>
#include <fiction/algorithms/properties/count_gate_types.hpp>
#include <fiction/algorithms/properties/critical_path_length_and_throughput.hpp>
#include <fiction/algorithms/verification/design_rule_violations.hpp>
#include <fiction/algorithms/verification/equivalence_checking.hpp>
#include <fiction/algorithms/verification/virtual_miter.hpp>
#include <fiction/layouts/synchronization_element_layout.hpp>
#include <fiction/networks/virtual_pi_network.hpp>
#include <mockturtle/algorithms/cleanup.hpp>

#include <sstream>

using O = offset::ucoord_t;
template <class B>
using gate_lyt = gate_level_layout<clocked_layout<tile_based_layout<B>>>;
using Cart = gate_lyt<cartesian_layout<O>>;
using Hex  = gate_lyt<hexagonal_layout<O, even_row_hex>>;
using Col  = gate_lyt<hexagonal_layout<O, odd_column_hex>>;
using Shif = gate_lyt<shifted_cartesian_layout<O, odd_column_cartesian>>;
using Sync = gate_level_layout<synchronization_element_layout<clocked_layout<tile_based_layout<cartesian_layout<O>>>>>;
using tec_t = mockturtle::names_view<technology_network>;
using aig_t = mockturtle::names_view<mockturtle::aig_network>;
using mig_t = mockturtle::names_view<mockturtle::mig_network>;

template <class Lyt>
Lyt grown(vp::Rng& r, int max, int steps, int po, const char* arr)
{
    const bool cart = std::string(arr) == "cart";
    typename Lyt::aspect_ratio c(1 + r.below(static_cast<uint64_t>(max)), 1 + r.below(static_cast<uint64_t>(max)), r.chance(70) ? 1 : 0);
    auto b = r.pick(bases);
    if (r.chance(40)) b = cart ? r.pick(std::vector<std::string>{"2DDWAVE", "USE", "RES"}) : "ROW";
    const int n = both(b) && r.chance(20) ? 3 : default_phases(b);
    Lyt l{c, make<Lyt>(b, n), r.chance(50) ? "x" : ""};
    if (b == "OPEN")
        for (const auto& t : all_tiles(l)) if (t.z == 0) { const auto k = static_cast<uint8_t>(r.below(static_cast<uint64_t>(n))); l.assign_clock_number(t, k); l.assign_clock_number(tile<Lyt>{l.above(t)}, k); }
    Grower<Lyt>{l, r, r.chance(80)}.grow(static_cast<int>(r.in(1, 5)), steps, po);
    return l;
}
template <class Lyt>
using Kid = std::vector<tile<Lyt>>;
template <class Lyt>
Kid<Lyt> kids(const Lyt& l, const tile<Lyt>& t)
{
    Kid<Lyt> v;
    l.foreach_fanin(l.get_node(t), [&](const auto& s) { v.push_back(tile<Lyt>{s}); });
    return v;
}
// a layout without dangling ends: outputs are added where there is room, everything that feeds no output is left out
template <class Lyt>
Lyt pruned(vp::Rng& r, Lyt& l)
{
    uint64_t k = 0;
    for (const auto& t : all_tiles(l))
        if (!l.is_empty_tile(t) && !l.is_po_tile(t) && l.fanout_size(l.get_node(t)) == 0)
            for (const auto& z : l.outgoing_clocked_zones(t))
                if (const tile<Lyt> g{l.below(z)}; l.is_empty_tile(g) && l.is_empty_tile(tile<Lyt>{l.above(g)}))
                {
                    l.create_po(static_cast<mockturtle::signal<Lyt>>(t), r.chance(50) ? "" : "o" + std::to_string(k++), g);
                    break;
                }
    std::vector<tile<Lyt>> order;
    std::set<tile<Lyt>>    seen;
    const std::function<void(const tile<Lyt>&)> go = [&](const tile<Lyt>& t)
    {
        if (!seen.insert(t).second) return;
        for (const auto& c : kids(l, t)) go(c);
        order.push_back(t);
    };
    l.foreach_po([&](const auto& s) { go(tile<Lyt>{s}); });
    Lyt p{typename Lyt::aspect_ratio(l.x(), l.y(), l.z()), l.get_clocking_scheme(), l.get_layout_name()};
    if constexpr (has_synchronization_elements_v<Lyt>)
        for (const auto& t : all_tiles(l)) if (l.get_synchronization_element(t) > 0) p.assign_synchronization_element(t, l.get_synchronization_element(t));
    if (!l.is_regularly_clocked()) for (const auto& t : all_tiles(l)) p.assign_clock_number(t, l.get_clock_number(t));
    std::map<tile<Lyt>, mockturtle::signal<Lyt>> at;
    const auto spot = [&](const tile<Lyt>& t) { return t.z > 0 && !seen.count(tile<Lyt>{l.below(t)}) ? tile<Lyt>{l.below(t)} : t; };
    l.foreach_pi([&](const auto& n) { const auto t = l.get_tile(n); if (seen.count(t)) at[t] = p.create_pi(l.get_name(n), spot(t)); });
    for (const auto& t : order)
    {
        if (l.is_pi_tile(t) || l.is_po_tile(t)) continue;
        std::vector<mockturtle::signal<Lyt>> ch;
        for (const auto& c : kids(l, t)) ch.push_back(at.at(c));
        at[t] = p.create_node(ch, l.node_function(l.get_node(t)), spot(t));
    }
    l.foreach_po([&](const auto& s) { const tile<Lyt> t{s}; p.create_po(at.at(kids(l, t)[0]), l.get_name(l.get_node(t)), spot(t)); });
    return p;
}

// a tree grown from its output towards its inputs, clocked along the way: signals that meet may arrive cycles apart
template <class Lyt>
Lyt tree(vp::Rng& r)
{
    const auto n = static_cast<uint32_t>(r.pick(std::vector<int>{3, 4, 4}));
    Lyt        l{typename Lyt::aspect_ratio(r.in(3, 9), r.in(3, 9), 0), open_clocking<Lyt>(n == 3 ? num_clks::THREE : num_clks::FOUR)};
    struct Cell { tile<Lyt> t; std::vector<size_t> from{}; };
    std::vector<Cell>   cs{};
    std::set<tile<Lyt>> used{};
    const auto place = [&](const tile<Lyt>& t, uint32_t clk) { used.insert(t); l.assign_clock_number(t, static_cast<uint8_t>(clk)); cs.push_back({t}); return cs.size() - 1; };
    std::vector<size_t> open{place(tile<Lyt>(r.below(l.x() + 1), r.below(l.y() + 1)), static_cast<uint32_t>(r.below(n)))};
    const auto budget = r.in(3, 45);
    while (!open.empty())
    {
        const auto ix = r.below(open.size());
        const auto c  = open[ix];
        open.erase(open.begin() + static_cast<long>(ix));
        std::vector<tile<Lyt>> room{};
        l.foreach_adjacent_tile(cs[c].t, [&](const auto& a) { if (a.z == 0 && !used.count(a)) room.push_back(a); });
        r.shuffle(room);
        size_t k = static_cast<int64_t>(cs.size()) > budget ? 0 : c == 0 ? 1 : static_cast<size_t>(r.pick(std::vector<int>{1, 1, 1, 1, 2, 2, 3, 3, static_cast<int>(cs.size() > 20 ? 0 : 1)}));
        k = std::min(k, room.size());
        const auto clk = l.get_clock_number(cs[c].t);
        for (size_t i = 0; i < k; ++i)
        {
            const auto f = place(room[i], (clk + n - 1) % n);
            cs[c].from.push_back(f);
            open.push_back(f);
        }
    }
    if (cs[0].from.empty()) return l;
    std::vector<mockturtle::signal<Lyt>> sig(cs.size());
    int pis = 0;
    for (size_t i = cs.size(); i-- > 1;)
    {
        const auto& c = cs[i];
        switch (c.from.size())
        {
            case 0: sig[i] = l.create_pi("i" + std::to_string(pis++), c.t); break;
            case 1: sig[i] = r.chance(80) ? l.create_buf(sig[c.from[0]], c.t) : l.create_not(sig[c.from[0]], c.t); break;
            case 2: sig[i] = r.chance(50) ? l.create_and(sig[c.from[0]], sig[c.from[1]], c.t) : l.create_xor(sig[c.from[0]], sig[c.from[1]], c.t); break;
            default: sig[i] = l.create_maj(sig[c.from[0]], sig[c.from[1]], sig[c.from[2]], c.t);
        }
    }
    l.create_po(sig[cs[0].from[0]], "o", cs[0].t);
    return l;
}

// ---- design rules ----
static const std::vector<std::pair<std::string, std::string>> rules{{"unplaced", "Unplaced nodes"}, {"dead", "Dead placed nodes"}, {"adjacent", "Non adjacent connections"}, {"connected", "Missing connections"}, {"crossing", "Wires crossing gates"},
                                                                     {"clocked", "Improperly clocked tiles"}, {"hasio", "I/O counts"}, {"emptyio", "Empty I/O ports"}, {"pins", "Gate I/O ports"}, {"border", "Border I/O ports"}};
static gate_level_drv_params only(const std::set<std::string>& on)
{
    gate_level_drv_params p{};
    p.unplaced_nodes           = on.count("unplaced");
    p.placed_dead_nodes        = on.count("dead");
    p.non_adjacent_connections = on.count("adjacent");
    p.missing_connections      = on.count("connected");
    p.crossing_gates           = on.count("crossing");
    p.clocked_data_flow        = on.count("clocked");
    p.has_io                   = on.count("hasio");
    p.empty_io                 = on.count("emptyio");
    p.io_pins                  = on.count("pins");
    p.border_io                = on.count("border");
    return p;
}
template <class Lyt>
struct Drc
{
    Lyt&         l;
    vp::Rng&     r;
    vp::History& h;
    using T = tile<Lyt>;
    using S = mockturtle::signal<Lyt>;

    void query()
    {
        std::map<std::string, J> key;
        for (const auto& t : all_tiles(l)) key[t.str()] = js(t);
        J q = J::object();
        vp::note("gate_level_drvs");
        std::map<std::string, J> reports;
        for (const auto& [id, name] : rules)
        {
            std::ostringstream   os{};
            gate_level_drv_stats st{};
            auto                 p = only({id});
            p.out = &os;
            gate_level_drvs(l, p, &st);
            const auto& rep = st.report[name];
            reports[id] = rep;
            J list = J::array();
            if (id == "unplaced")
            {
                for (const auto& e : rep) if (!e.is_null()) list.push_back(e);
            }
            else if (id != "hasio" && rep.is_object())
                for (const auto& [k, v] : rep.items()) list.push_back({key.count(k) ? key[k] : J::array({-1, -1, -1}), v});
            q[id] = {{"c", st.drvs + st.warnings}, {"drv", st.drvs}, {"warn", st.warnings}, {"l", list}, {"fail", os.str().find("] not ") != std::string::npos}};
        }
        std::set<std::string> on;
        for (const auto& [id, name] : rules) if (r.chance(75)) on.insert(id);
        std::ostringstream   os{};
        gate_level_drv_stats st{};
        auto                 p = only(on);
        p.out = &os;
        gate_level_drvs(l, p, &st);
        bool same = st.report["DRVs"] == st.drvs && st.report["Warnings"] == st.warnings;
        J onj = J::array(), io = J::array();
        for (const auto& [id, name] : rules)
        {
            if (on.count(id)) { onj.push_back(id); same = same && st.report.contains(name) && st.report[name] == reports[id]; }
            else same = same && !st.report.contains(name);
        }
        if (const auto& c = reports["hasio"]; c.is_object()) io = {c["Specified PIs"], c["Counted PIs"], c["Specified POs"], c["Counted POs"]};
        h.ev({{"op", "drv"}, {"rules", q}, {"on", onj}, {"drv", st.drvs}, {"warn", st.warnings}, {"same", same}, {"io", io}});
    }
    T any() { return T(r.below(l.x() + 1), r.below(l.y() + 1), r.below(l.z() + 1)); }
    std::vector<T> used()
    {
        std::vector<T> v;
        for (const auto& t : all_tiles(l)) if (!l.is_empty_tile(t)) v.push_back(t);
        return v;
    }
    T near(const T& t)
    {
        std::vector<T> v;
        for (const auto& u : used()) if (l.is_adjacent_elevation_of(t, u)) v.push_back(u);
        return v.empty() || r.chance(25) ? any() : r.pick(v);
    }
    void mutate()
    {
        const auto u = used();
        const auto t = any();
        switch (u.empty() ? 2 + r.below(2) : r.below(10))
        {
            case 0:
            case 1: { const auto c = r.pick(u); l.clear_tile(c); h.ev({{"op", "clear"}, {"t", js(c)}}); break; }
            case 2: l.create_pi("p", t); h.ev({{"op", "pi"}, {"nm", "p"}, {"t", js(t)}}); break;
            case 3: { const auto c = near(t); l.create_po(static_cast<S>(c), "q", t); h.ev({{"op", "po"}, {"nm", "q"}, {"c", js(c)}, {"t", js(t)}}); break; }
            case 4:
            {
                const auto n = l.get_node(r.pick(u));
                std::vector<S> ch;
                J              cj = J::array();
                for (uint64_t i = r.below(3); i > 0; --i) { const auto c = near(t); ch.push_back(static_cast<S>(c)); cj.push_back(js(c)); }
                l.move_node(n, t, ch);
                h.ev({{"op", "move"}, {"n", n}, {"t", js(t)}, {"ch", cj}});
                break;
            }
            case 5: { const auto n = l.get_node(r.pick(u)); const auto c = near(l.get_tile(n)); l.connect(static_cast<S>(c), n); h.ev({{"op", "connect"}, {"n", n}, {"c", js(c)}}); break; }
            case 6: { const auto a = near(t), b = near(t); l.create_and(static_cast<S>(a), static_cast<S>(b), t); h.ev({{"op", "create"}, {"fn", "and"}, {"ch", {js(a), js(b)}}, {"t", js(t)}}); break; }
            case 7: { const auto a = near(t); l.create_buf(static_cast<S>(a), t); h.ev({{"op", "create"}, {"fn", "buf"}, {"ch", {js(a)}}, {"t", js(t)}}); break; }
            case 8: { const auto c = r.below(4); // zones extend over both layers
                      for (uint64_t z = 0; z <= l.z(); ++z) { l.assign_clock_number(T(t.x, t.y, z), static_cast<uint8_t>(c)); h.ev({{"op", "clk"}, {"t", js(T(t.x, t.y, z))}, {"c", c}}); }
                      break; }
            default:
                if constexpr (has_synchronization_elements_v<Lyt>)
                {
                    const auto c = r.below(3);
                    const auto p = r.pick(u);
                    for (uint64_t z = 0; z <= l.z(); ++z)
                    {
                        l.assign_synchronization_element(T(p.x, p.y, z), static_cast<uint8_t>(c));
                        h.ev({{"op", "se"}, {"t", js(T(p.x, p.y, z))}, {"c", c}});
                    }
                }
                break;
        }
    }
};
template <class Lyt>
void drc(vp::Rng& r, const char* arr, int reps)
{
    for (int i = 0; i < reps; ++i)
    {
        auto g = grown<Lyt>(r, 4, static_cast<int>(r.in(0, 25)), 20, arr);
        auto l = r.chance(60) ? pruned(r, g) : g;
        vp::History h{"drc", {{"doc", doc(l, arr)}}};
        Drc<Lyt> d{l, r, h};
        d.query();
        for (int s = 0; s < 8; ++s)
        {
            d.mutate();
            if (r.chance(40)) d.query();
        }
        d.query();
        h.close();
    }
}

// ---- equivalence ----
template <class X>
J any_doc(const X& x)
{
    if constexpr (is_gate_level_layout_v<X>) return {{"k", "lyt"}, {"d", doc(x)}};
    else return {{"k", "net"}, {"d", ndoc(x)}};
}
template <class A, class B>
void eq(const A& a, const B& b)
{
    vp::note("equivalence_checking");
    equivalence_checking_stats st{};
    const auto res = equivalence_checking(a, b, &st);
    J cex = J::array();
    for (const auto v : st.counter_example) cex.push_back(v ? 1 : 0);
    vp::History h{"eq", {{"x", 0}}};
    h.ev({{"op", "eq"}, {"a", any_doc(a)}, {"b", any_doc(b)}, {"res", res == eq_type::NO ? "NO" : res == eq_type::WEAK ? "WEAK" : "STRONG"}, {"tpa", st.tp_spec}, {"tpb", st.tp_impl}, {"diff", st.tp_diff},
          {"cex", cex}, {"drva", st.spec_drv_stats.drvs}, {"drvb", st.impl_drv_stats.drvs}});
    h.close();
}
// does the network read a constant, or one node twice at a gate? (such networks are not placed here)
static bool reads_constant(const J& d)
{
    for (const auto& n : d["nd"])
    {
        for (const auto& c : n["ch"]) if (c[0] == 0) return true;
        if (n["ch"].size() == 2 && n["ch"][0][0] == n["ch"][1][0]) return true;
    }
    for (const auto& p : d["po"]) if (p[0] == 0) return true;
    return false;
}
static int flip_of(vp::Rng& r, const J& d) { return d["nd"].empty() || r.chance(50) ? -1 : static_cast<int>(r.below(d["nd"].size())); }
template <class Ntk>
Ntk net(vp::Rng& r, int pis, int gates, int pos, bool constants = true)
{
    Ntk n{};
    NetGen<Ntk> g{n, r};
    g.three = r.chance(60);
    g.build(pis, gates, pos, constants && r.chance(30));
    return n;
}
// a logic network of a layout
template <class Lyt>
J lyt_ndoc(const Lyt& l)
{
    J nd = J::array(), po = J::array();
    std::map<tile<Lyt>, int> num;
    int k = 0;
    l.foreach_pi([&](const auto& n) { num[l.get_tile(n)] = ++k; });
    const int n_in = k;
    const std::function<int(const tile<Lyt>&)> go = [&](const tile<Lyt>& t) -> int
    {
        if (num.count(t)) return num[t];
        J ch = J::array();
        for (const auto& c : kids(l, t)) ch.push_back({go(c), 0});
        nd.push_back({{"f", ttbits(l.node_function(l.get_node(t)))}, {"ch", ch}});
        return num[t] = ++k;
    };
    l.foreach_po([&](const auto& s) { po.push_back({go(tile<Lyt>{s}), 0}); });
    return {{"n", n_in}, {"nd", nd}, {"po", po}};
}
template <class Lyt>
void eq_layouts(vp::Rng& r, const char* arr, int reps)
{
    for (int i = 0; i < reps; ++i)
    {
        auto g = grown<Lyt>(r, 5, static_cast<int>(r.in(5, 60)), 15, arr);
        if (r.chance(15)) { eq(g, net<aig_t>(r, static_cast<int>(g.num_pis()), 4, static_cast<int>(g.num_pos()))); continue; }
        auto p = pruned(r, g);
        if (r.chance(25))
            do p = tree<Lyt>(r); while (p.num_pis() > 5);
        if (p.num_pis() == 0) continue;
        const auto d = lyt_ndoc(p);
        switch (r.below(5))
        {
            case 0: eq(from_ndoc<tec_t>(d, static_cast<int>(r.below(4)), flip_of(r, d)), p); break;
            case 1: eq(p, from_ndoc<mockturtle::klut_network>(d, static_cast<int>(r.below(4)), flip_of(r, d))); break;
            case 2: eq(p, p.clone()); break;
            case 3: { const auto c = from_ndoc<tec_t>(d, static_cast<int>(r.below(4)), flip_of(r, d)); if (!reads_constant(ndoc(c))) eq(orthogonal<Cart>(c), p); break; }
            default:
            {
                auto q = p.clone();
                std::vector<tile<Lyt>> gs;
                for (const auto& t : all_tiles(q)) if (!q.is_empty_tile(t) && !q.is_pi_tile(t) && !q.is_po_tile(t) && q.fanin_size(q.get_node(t)) <= 2) gs.push_back(t);
                if (gs.empty()) break;
                // another gate in the place of one
                const auto t = r.pick(gs);
                const auto k = kids(q, t);
                const auto s = [&](size_t j) { return static_cast<mockturtle::signal<Lyt>>(k[j]); };
                if (k.size() == 1) q.is_wire_tile(t) ? q.create_not(s(0), t) : q.create_buf(s(0), t);
                else if (k.size() == 2) r.chance(50) ? q.create_and(s(0), s(1), t) : q.create_or(s(1), s(0), t);
                r.chance(50) ? eq(p, q) : eq(q, p);
            }
        }
    }
}
template <class A, class B>
void eq_nets(vp::Rng& r, int reps)
{
    for (int i = 0; i < reps; ++i)
    {
        const auto pis = static_cast<int>(r.in(1, 5)), pos = static_cast<int>(r.in(1, 3));
        const auto a   = net<A>(r, pis, static_cast<int>(r.in(1, 12)), pos);
        const auto d   = ndoc(a);
        if (r.chance(20)) eq(a, net<B>(r, r.chance(60) ? pis : pis + 1, 5, r.chance(60) ? pos : pos + 1));
        else eq(a, from_ndoc<B>(d, static_cast<int>(r.below(4)), flip_of(r, d)));
        if constexpr (!std::is_same_v<B, mockturtle::klut_network>)
            if (r.chance(30))
            {
                const auto b = from_ndoc<B>(d, static_cast<int>(r.below(4)), flip_of(r, d));
                const auto c = from_ndoc<tec_t>(d, static_cast<int>(r.below(4)));
                const auto e = from_ndoc<tec_t>(ndoc(b), 1);
                if (!reads_constant(ndoc(c)) && !reads_constant(ndoc(e))) eq(orthogonal<Cart>(c), orthogonal<Cart>(e));
            }
    }
}
template <class A, class B>
void miters(vp::Rng& r, int reps)
{
    using VA = virtual_pi_network<A>;
    using VB = virtual_pi_network<B>;
    for (int i = 0; i < reps; ++i)
    {
        const auto pis = static_cast<int>(r.in(1, 4)), pos = static_cast<int>(r.in(1, 3));
        const auto d   = ndoc(net<tec_t>(r, pis, static_cast<int>(r.in(1, 8)), pos));
        // the document's inputs, some of them doubled by virtual ones
        const auto build = [&](auto& v, const J& dd, int flip)
        {
            using V = std::decay_t<decltype(v)>;
            std::vector<mockturtle::signal<V>>              s{v.get_constant(false)};
            std::map<int, std::vector<mockturtle::signal<V>>> alt;
            for (int k = 0; k < dd["n"].get<int>(); ++k) s.push_back(v.create_pi());
            for (int k = 1; k <= dd["n"].get<int>(); ++k) while (r.chance(30) && v.num_pis() < 7) alt[k].push_back(v.create_virtual_pi(s[static_cast<size_t>(k)]));
            int q = 0;
            const auto use = [&](int k) { return alt.count(k) && r.chance(60) ? r.pick(alt[k]) : s[static_cast<size_t>(k)]; };
            const int style = static_cast<int>(r.below(4));
            for (const auto& n : dd["nd"])
            {
                std::vector<mockturtle::signal<V>> in;
                for (const auto& c : n["ch"]) in.push_back(c[1].get<int>() ? v.create_not(use(c[0])) : use(c[0]));
                auto f = n["f"].get<std::vector<int>>();
                if (q++ == flip) f[0] ^= 1;
                s.push_back(synth(v, f, in, in.size(), style));
            }
            for (const auto& p : dd["po"]) v.create_po(p[1].get<int>() ? v.create_not(use(p[0])) : use(p[0]));
        };
        const auto info = [&](const auto& v, J& virt, J& map)
        {
            std::map<uint64_t, int> ids;
            const auto doc = ndoc(v, &ids);
            // inputs of the miter are numbered like the real ones
            std::map<uint64_t, int> real;
            int k = 0;
            v.foreach_real_pi([&](const auto& n) { real[v.node_to_index(n)] = ++k; });
            v.foreach_pi([&](const auto& n) { if (v.is_virtual_pi(n)) { virt.push_back(ids[v.node_to_index(n)]); map.push_back(real[v.node_to_index(v.get_real_pi(n))]); } else map.push_back(real[v.node_to_index(n)]); });
            return doc;
        };
        VA a{};
        VB b{};
        build(a, d, -1);
        if (r.chance(15)) build(b, ndoc(net<tec_t>(r, r.chance(50) ? pis : pis + 1, 3, r.chance(50) ? pos : pos + 1)), -1);
        else build(b, d, flip_of(r, d));
        J va = J::array(), vb = J::array(), ma = J::array(), mb = J::array();
        const auto da = info(a, va, ma), db = info(b, vb, mb);
        vp::note("virtual_miter");
        vp::History h{"eq", {{"x", 0}}};
        const auto put = [&](const auto& m)
        { h.ev({{"op", "miter"}, {"a", {{"k", "net"}, {"d", da}}}, {"b", {{"k", "net"}, {"d", db}}}, {"va", va}, {"vb", vb}, {"ma", ma}, {"mb", mb}, {"some", m.has_value()}, {"m", m ? ndoc(*m) : J{{"n", 0}}}}); };
        if constexpr (!std::is_same_v<A, technology_network>)
        {
            if (r.chance(50)) put(virtual_miter<mockturtle::aig_network>(a, b));
            else put(virtual_miter<technology_network>(a, b));
        }
        else put(virtual_miter<technology_network>(a, b));
        h.close();
    }
}

// ---- timing and counts ----
template <class Lyt>
void timing(const Lyt& l, const char* arr)
{
    vp::History h{"time", {{"x", 0}}};
    vp::note("critical_path_length_and_throughput");
    const auto t = critical_path_length_and_throughput(l);
    const auto d = doc(l, arr);
    h.ev({{"op", "time"}, {"d", d}, {"sync", has_synchronization_elements_v<Lyt>}, {"cp", t.critical_path_length}, {"tp", t.throughput}});
    count_gate_types_stats st{};
    vp::note("count_gate_types");
    count_gate_types(l, &st);
    std::ostringstream os{};
    st.report(os, true);
    const auto s = os.str();
    h.ev({{"op", "types"}, {"d", d},
          {"c", {{"fanout", st.num_fanout}, {"buf", st.num_buf}, {"inv", st.num_inv}, {"and", st.num_and2}, {"or", st.num_or2}, {"nand", st.num_nand2}, {"nor", st.num_nor2}, {"xor", st.num_xor2}, {"xnor", st.num_xnor2},
                 {"lt", st.num_lt2}, {"gt", st.num_gt2}, {"le", st.num_le2}, {"ge", st.num_ge2}, {"maj", st.num_maj3}, {"other", st.num_other}, {"total", std::stoi(s.substr(s.find("total  =") + 8))}}}});
    h.close();
}
template <class Lyt>
void times(vp::Rng& r, const char* arr, int reps)
{
    if constexpr (!has_synchronization_elements_v<Lyt>)
        for (int i = 0; i < reps / 2; ++i) timing(tree<Lyt>(r), arr);
    for (int i = 0; i < reps; ++i)
    {
        auto g = grown<Lyt>(r, static_cast<int>(r.in(3, 9)), static_cast<int>(r.in(5, 150)), r.chance(50) ? 0 : 10, arr);
        if constexpr (has_synchronization_elements_v<Lyt>)
            for (const auto& t : all_tiles(g)) if (t.z == 0 && r.chance(10)) for (uint64_t z = 0; z <= g.z(); ++z) g.assign_synchronization_element(tile<Lyt>(t.x, t.y, z), static_cast<uint8_t>(r.in(1, 2)));
        timing(r.chance(30) ? g : pruned(r, g), arr);
    }
}
int main(int argc, char** argv)
{
    vp::init(argc, argv);
    vp::Rng r{vp::seed * 151 + 3};
    const int k = vp::thorough ? 20 : 3;
    if (vp::is_mode("drc"))
    {
        drc<Cart>(r, "cart", 60 * k);
        drc<Sync>(r, "cart", 40 * k);
        drc<Hex>(r, "even_row", 40 * k);
        drc<Col>(r, "odd_col", 20 * k);
        drc<Shif>(r, "odd_col", 20 * k);
    }
    if (vp::is_mode("eq"))
    {
        std::ofstream null{"/dev/null"};
        const auto    old = std::cout.rdbuf(null.rdbuf());
        eq_layouts<Cart>(r, "cart", 120 * k);
        eq_layouts<Hex>(r, "even_row", 50 * k);
        eq_nets<tec_t, aig_t>(r, 60 * k);
        eq_nets<mig_t, tec_t>(r, 40 * k);
        eq_nets<aig_t, mockturtle::klut_network>(r, 30 * k);
        miters<technology_network, technology_network>(r, 80 * k);
        miters<mockturtle::aig_network, mockturtle::mig_network>(r, 60 * k);
        std::cout.rdbuf(old);
    }
    if (vp::is_mode("time"))
    {
        times<Cart>(r, "cart", 150 * k);
        times<Sync>(r, "cart", 40 * k);
        times<Hex>(r, "even_row", 60 * k);
        times<Col>(r, "odd_col", 30 * k);
    }
    return vp::finish();
}
