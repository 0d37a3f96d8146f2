// Logic networks: construction, transformations, views.
#include "nets.hpp"
#include "snap.hpp"

#include <fiction/algorithms/network_transformation/delete_virtual_pis.hpp>
#include <fiction/algorithms/network_transformation/fanout_substitution.hpp>
#include <fiction/algorithms/network_transformation/network_balancing.hpp>
#include <fiction/algorithms/network_transformation/network_conversion.hpp>
#include <fiction/algorithms/properties/count_gate_types.hpp>
#include <fiction/networks/views/bfs_topo_view.hpp>
#include <fiction/networks/views/edge_color_view.hpp>
#include <fiction/networks/views/mutable_rank_view.hpp>
#include <fiction/networks/views/static_depth_view.hpp>
#include <fiction/networks/virtual_pi_network.hpp>
#include <cmath>
#include <fiction/utils/truth_table_utils.hpp>
#include <mockturtle/algorithms/cleanup.hpp>
#include <mockturtle/views/fanout_view.hpp>

using tec  = technology_network;
using ntec = mockturtle::names_view<technology_network>;
using vtec = virtual_pi_network<technology_network>;
using aigs = mockturtle::names_view<mockturtle::aig_network>;
using migs = mockturtle::names_view<mockturtle::mig_network>;

static const std::vector<std::string> one{"buf", "not"}, two{"and", "nand", "or", "nor", "lt", "ge", "gt", "le", "xor", "xnor"}, three{"maj", "ite", "xor3", "dot", "and3", "xor_and", "or_and", "onehot", "gamble", "and_xor"};
static tt_t table(unsigned vars, uint64_t w)
{
    tt_t f{vars};
    kitty::create_from_words(f, &w, &w + 1);
    return f;
}
template <class Ntk>
uint64_t create(Ntk& t, const std::string& g, const std::vector<uint64_t>& c)
{
    if (g == "buf") return t.create_buf(c[0]);
    if (g == "not") return t.create_not(c[0]);
    if (g == "and") return t.create_and(c[0], c[1]);
    if (g == "nand") return t.create_nand(c[0], c[1]);
    if (g == "or") return t.create_or(c[0], c[1]);
    if (g == "nor") return t.create_nor(c[0], c[1]);
    if (g == "lt") return t.create_lt(c[0], c[1]);
    if (g == "ge") return t.create_ge(c[0], c[1]);
    if (g == "gt") return t.create_gt(c[0], c[1]);
    if (g == "le") return t.create_le(c[0], c[1]);
    if (g == "xor") return t.create_xor(c[0], c[1]);
    if (g == "xnor") return t.create_xnor(c[0], c[1]);
    if (g == "maj") return t.create_maj(c[0], c[1], c[2]);
    if (g == "ite") return t.create_ite(c[0], c[1], c[2]);
    if (g == "xor3") return t.create_xor3(c[0], c[1], c[2]);
    if (g == "dot") return t.create_dot(c[0], c[1], c[2]);
    static const std::map<std::string, uint64_t> words{{"and3", 0x80}, {"xor_and", 0x28}, {"or_and", 0xa8}, {"onehot", 0x16}, {"gamble", 0x81}, {"and_xor", 0x6a}};
    return t.create_node(c, table(3, words.at(g)));
}
template <class Ntk>
J predicates(const Ntk& t, uint64_t n)
{
    J p = J::array();
#define VP_P(x) if (t.is_##x(n)) p.push_back(#x)
    VP_P(buf); VP_P(fanout); VP_P(and); VP_P(nand); VP_P(or); VP_P(nor); VP_P(lt); VP_P(ge); VP_P(gt); VP_P(le); VP_P(xor); VP_P(xnor); VP_P(maj); VP_P(ite); VP_P(xor3); VP_P(dot); VP_P(and3); VP_P(xor_and);
    VP_P(or_and); VP_P(onehot); VP_P(gamble); VP_P(and_xor); VP_P(po); VP_P(pi);
#undef VP_P
    if (t.is_inv(n)) p.push_back("not");
    return p;
}
template <class Ntk>
struct Net
{
    Ntk          t;
    vp::Rng&     r;
    vp::History& h;
    std::vector<uint64_t> s{0, 1}, pis{};
    void pi()
    {
        const uint64_t i = t.create_pi();
        s.push_back(i), pis.push_back(i);
        h.ev({{"op", "pi"}, {"id", i}});
    }
    uint64_t pick() { return s.size() > 8 && r.chance(60) ? s[s.size() - 1 - r.below(6)] : r.chance(90) && s.size() > 2 ? s[2 + r.below(s.size() - 2)] : r.pick(s); }
    void gate()
    {
        const auto k = r.below(10);
        std::vector<uint64_t> c;
        if (k == 0)
        {
            const auto n = r.in(1, 3);
            for (int64_t i = 0; i < n; ++i) c.push_back(pick());
            const auto w = r.below(n == 1 ? 4 : n == 2 ? 16 : 256);
            const auto f = table(static_cast<unsigned>(n), w);
            const uint64_t i = t.create_node(c, f);
            s.push_back(i);
            h.ev({{"op", "node"}, {"f", ttbits(f)}, {"ch", c}, {"id", i}});
            return;
        }
        const auto& v = k < 4 ? one : k < 8 ? two : three;
        for (size_t i = 0; i < (k < 4 ? 1u : k < 8 ? 2u : 3u); ++i) c.push_back(pick());
        const auto g = k < 4 && r.chance(60) ? std::string{"buf"} : r.pick(v);
        const uint64_t i = create(t, g, c);
        s.push_back(i);
        h.ev({{"op", "gate"}, {"g", g}, {"ch", c}, {"id", i}});
    }
    void po(uint64_t n)
    {
        t.create_po(n);
        h.ev({{"op", "po"}, {"n", n}});
    }
    void query()
    {
        J nodes = J::array(), ps = J::array(), os = J::array();
        t.foreach_node(
            [&](const auto& n)
            {
                J ch = J::array();
                t.foreach_fanin(n, [&](const auto& f) { ch.push_back(f); });
                nodes.push_back({{"id", n}, {"f", t.is_constant(n) || t.is_pi(n) ? J::array() : J(ttbits(t.node_function(n)))}, {"ch", ch}, {"uses", t.fanout_size(n)}, {"is", predicates(t, n)}});
            });
        t.foreach_pi([&](const auto& n) { ps.push_back(n); });
        t.foreach_po([&](const auto& n) { os.push_back(n); });
        count_gate_types_stats st{};
        vp::note("count_gate_types on a network");
        count_gate_types(t, &st);
        std::ostringstream o1{}, o2{};
        st.report(o1, true);
        st.report(o2, false);
        const auto num = [](const std::string& x, const std::string& key) { return std::stoi(x.substr(x.find(key) + key.size())); };
        J v = {{"x", 0}};
        if constexpr (has_num_virtual_pis_v<Ntk>)
        {
            J vp = J::array(), rp = J::array(), isv = J::array(), isr = J::array(), icv = J::array(), icr = J::array(), mp = J::array(), vc = J::array(), rc = J::array();
            t.foreach_virtual_pi([&](const auto& n) { vp.push_back(n); mp.push_back({n, t.get_real_pi(n)}); });
            t.foreach_real_pi([&](const auto& n) { rp.push_back(n); });
            t.foreach_virtual_ci([&](const auto& n) { vc.push_back(n); });
            t.foreach_real_ci([&](const auto& n) { rc.push_back(n); });
            t.foreach_node([&](const auto& n) { if (t.is_virtual_pi(n)) isv.push_back(n); if (t.is_real_pi(n)) isr.push_back(n); if (t.is_virtual_ci(n)) icv.push_back(n); if (t.is_real_ci(n)) icr.push_back(n); });
            v = {{"x", 1}, {"vp", vp}, {"rp", rp}, {"vc", vc}, {"rc", rc}, {"isv", isv}, {"isr", isr}, {"icv", icv}, {"icr", icr}, {"mp", mp}, {"nv", {t.num_virtual_pis(), t.num_virtual_cis()}}, {"nr", {t.num_real_pis(), t.num_real_cis()}}, {"size", t.real_size()}};
        }
        h.ev({{"op", "net"}, {"size", t.size()}, {"pis", ps}, {"pos", os}, {"npi", t.num_pis()}, {"npo", t.num_pos()}, {"ngates", t.num_gates()}, {"nodes", nodes}, {"v", v},
              {"c", {{"fanout", st.num_fanout}, {"buf", st.num_buf}, {"not", st.num_inv}, {"and", st.num_and2}, {"or", st.num_or2}, {"nand", st.num_nand2}, {"nor", st.num_nor2}, {"xor", st.num_xor2}, {"xnor", st.num_xnor2},
                     {"lt", st.num_lt2}, {"gt", st.num_gt2}, {"le", st.num_le2}, {"ge", st.num_ge2}, {"maj", st.num_maj3}, {"dot", st.num_dot}, {"ite", st.num_mux}, {"and3", st.num_and3}, {"xor_and", st.num_xor_and},
                     {"or_and", st.num_or_and}, {"onehot", st.num_onehot}, {"gamble", st.num_gamble}, {"and_xor", st.num_and_xor}}},
              {"other", st.num_other}, {"total", {num(o1.str(), "total  ="), num(o2.str(), "total  =")}}, {"rest", num(o2.str(), "other  =")}});
    }
    void run(int steps, bool late)
    {
        for (int64_t i = r.in(0, 4); i > 0; --i) pi();
        for (int i = 0; i < steps; ++i)
        {
            const auto x = r.below(100);
            if (x < 5) pi();
            else if (x < 15) po(pick());
            else if (x < 19) query();
            else if (x < 23 && late)
            {
                t.substitute_po_signals();
                h.ev({{"op", "subst"}});
                s.clear();
                t.foreach_node([&](const auto& n) { s.push_back(n); });
            }
            else if (x < 26)
            {
                auto c = t.clone();
                // what happens to the original is no matter of the copy's
                t.create_po(t.create_and(t.create_pi(), s.back()));
                t = c;
                h.ev({{"op", "copy"}});
            }
            else if (x < 32)
            {
                if constexpr (has_num_virtual_pis_v<Ntk>)
                    if (!pis.empty())
                    {
                        const auto of = r.pick(pis);
                        const uint64_t i2 = t.create_virtual_pi(of);
                        s.push_back(i2);
                        h.ev({{"op", "vpi"}, {"of", of}, {"id", i2}});
                    }
            }
            else gate();
        }
        query();
    }
};
template <class Ntk>
void nets(vp::Rng& r, int reps)
{
    for (int i = 0; i < reps; ++i)
    {
        vp::note("network history");
        vp::History h{"net", {{"x", 0}}};
        Net<Ntk>{Ntk{}, r, h}.run(static_cast<int>(r.in(3, 40)), true);
        h.close();
    }
}
static J bits_of(const std::vector<tt_t>& v) { J j = J::array(); for (const auto& t : v) j.push_back(ttbits(t)); return j; }
static void tables(vp::Rng& r)
{
    vp::note("truth tables");
    vp::History h{"net", {{"x", 0}}};
    h.ev({{"op", "tts"}, {"t", {{"buf", ttbits(create_id_tt())}, {"not", ttbits(create_not_tt())}, {"and", ttbits(create_and_tt())}, {"or", ttbits(create_or_tt())}, {"nand", ttbits(create_nand_tt())},
          {"nor", ttbits(create_nor_tt())}, {"xor", ttbits(create_xor_tt())}, {"xnor", ttbits(create_xnor_tt())}, {"and3", ttbits(create_and3_tt())}, {"xor_and", ttbits(create_xor_and_tt())},
          {"or_and", ttbits(create_or_and_tt())}, {"onehot", ttbits(create_onehot_tt())}, {"maj", ttbits(create_maj_tt())}, {"gamble", ttbits(create_gamble_tt())}, {"dot", ttbits(create_dot_tt())},
          {"ite", ttbits(create_ite_tt())}, {"and_xor", ttbits(create_and_xor_tt())}, {"xor3", ttbits(create_xor3_tt())}}},
          {"lt", ttbits(create_lt_tt())}, {"gt", ttbits(create_gt_tt())}, {"le", ttbits(create_le_tt())}, {"ge", ttbits(create_ge_tt())},
          {"wire2", bits_of(create_double_wire_tt())}, {"cross", bits_of(create_crossing_wire_tt())}, {"fan", bits_of(create_fan_out_tt())}, {"ha", bits_of(create_half_adder_tt())}});
    for (int i = 0; i < 60; ++i)
    {
        const auto n = static_cast<unsigned>(r.in(1, 4));
        std::vector<tt_t> v;
        for (int64_t k = r.in(1, 6); k > 0; --k) { tt_t f{n}; for (uint64_t b = 0; b < f.num_bits(); ++b) if (r.chance(50)) kitty::set_bit(f, b); v.push_back(f); }
        const auto x = r.below(1ull << n);
        h.ev({{"op", "eval"}, {"t", bits_of(v)}, {"x", x}, {"r", evaluate_output(v, x)}});
    }
    for (const auto* g : {"and", "or", "xor"})
        for (int n = 0; n <= 5; ++n)
        {
            tec t{};
            std::vector<uint64_t> in;
            for (int k = 0; k < n; ++k) in.push_back(t.create_pi());
            t.create_po(g[0] == 'a' ? t.create_nary_and(in) : g[0] == 'o' ? t.create_nary_or(in) : t.create_nary_xor(in));
            h.ev({{"op", "nary"}, {"g", g}, {"n", n}, {"d", ndoc(t)}});
        }
    h.close();
}

// ---- transformations ----
template <class Ntk>
Ntk random_net(vp::Rng& r, bool virt = false)
{
    Ntk n{};
    if constexpr (mockturtle::has_set_network_name_v<Ntk>) if (r.chance(70)) n.set_network_name("top" + std::to_string(r.below(9)));
    NetGen<Ntk> g{n, r};
    g.three = r.chance(60);
    const bool named = r.chance(60), constants = r.chance(25);
    if constexpr (has_num_virtual_pis_v<Ntk>)
    {
        std::vector<mockturtle::signal<Ntk>> pis;
        for (int64_t i = 0, m = r.in(1, 6); i < m; ++i)
        {
            if (virt && !pis.empty() && r.chance(45)) { g.s.push_back(n.create_virtual_pi(r.pick(pis))); if (pis.size() > 4) break; continue; }
            if (pis.size() > 4) continue;
            if constexpr (mockturtle::has_set_name_v<Ntk>) pis.push_back(named && r.chance(80) ? n.create_pi("in" + std::to_string(i)) : n.create_pi());
            else pis.push_back(n.create_pi());
            g.s.push_back(pis.back());
        }
        g.build(0, static_cast<int>(r.in(0, 14)), static_cast<int>(r.in(1, 4)), constants, named);
    }
    else g.build(static_cast<int>(r.in(1, 5)), static_cast<int>(r.in(0, 18)), static_cast<int>(r.in(1, 5)), constants, named);
    // something that many read
    if (r.chance(30))
    {
        const auto hub = r.pick(g.s);
        for (int64_t i = r.in(3, 12); i > 0; --i)
            if (r.chance(50)) n.create_po(hub);
            else if (const auto x = n.create_and(hub, r.pick(g.s)); r.chance(70)) n.create_po(x);
    }
    if constexpr (mockturtle::has_set_name_v<Ntk>)
        n.foreach_gate([&](const auto& x) { if (r.chance(20)) n.set_name(n.make_signal(x), "w" + std::to_string(n.node_to_index(x))); });
    return n;
}
template <class A, class B>
void put(const char* k, const A& a, const B& b, J more, J va = J::array())
{
    std::map<uint64_t, int> ia, ib;
    const auto da = ndoc(a, &ia), db = ndoc(b, &ib);
    J e = {{"op", "xf"}, {"k", k}, {"a", da}, {"b", db}, {"va", va}, {"klut", std::is_same_v<typename B::base_type, mockturtle::klut_network>}, {"named", mockturtle::has_has_name_v<A> && mockturtle::has_has_name_v<B>}, {"na", names_of(a, ia)}, {"nb", names_of(b, ib)}};
    e.update(more);
    vp::History h{"net", {{"x", 0}}};
    h.ev(e);
    h.close();
}
template <class A, class B>
void transforms(vp::Rng& r, int reps)
{
    for (int i = 0; i < reps; ++i)
    {
        const auto a = random_net<A>(r);
        switch (r.below(3))
        {
            case 0: vp::note("convert_network"); put("convert", a, convert_network<B>(a), {{"same", std::is_same_v<A, B>}}); break;
            case 1:
                if constexpr (std::is_same_v<typename B::base_type, mockturtle::klut_network> && mockturtle::has_create_buf_v<B> && has_is_buf_v<B>)
                {
                    vp::note("fanout_substitution");
                    fanout_substitution_params p{};
                    p.strategy  = r.pick(std::vector{fanout_substitution_params::substitution_strategy::BREADTH, fanout_substitution_params::substitution_strategy::DEPTH, fanout_substitution_params::substitution_strategy::RANDOM});
                    p.degree    = static_cast<uint32_t>(r.in(2, 4));
                    p.threshold = static_cast<uint32_t>(r.pick(std::vector<int>{1, 1, 1, 2, 3}));
                    if (r.chance(70)) p.seed = static_cast<uint32_t>(r.below(1000));
                    const auto b = fanout_substitution<B>(a, p);
                    put("fanout", a, b, {{"same", std::is_same_v<A, B>}, {"degree", p.degree}, {"threshold", p.threshold}, {"was", is_fanout_substituted(a, p)}, {"is", is_fanout_substituted(b, p)}, {"buf", has_is_buf_v<A>}});
                }
                break;
            default:
                if constexpr (std::is_same_v<typename B::base_type, mockturtle::klut_network> && mockturtle::has_create_buf_v<B> && has_is_buf_v<B>)
                {
                    vp::note("network_balancing");
                    network_balancing_params p{};
                    p.unify_outputs = r.chance(50);
                    const auto b = network_balancing<B>(a, p);
                    put("balance", a, b, {{"same", std::is_same_v<A, B>}, {"unify", p.unify_outputs}, {"was", is_balanced(a, p)}, {"is", is_balanced(b, p)}});
                }
        }
    }
}
template <class V>
void virtuals(vp::Rng& r, int reps)
{
    for (int i = 0; i < reps; ++i)
    {
        const auto v = random_net<V>(r, true);
        J va = J::array();
        std::map<uint64_t, int> num;
        int k = 0;
        v.foreach_pi([&](const auto& n) { num[v.node_to_index(n)] = ++k; });
        // <<input, the input it stands for>>
        v.foreach_virtual_pi([&](const auto& n) { va.push_back({num[v.node_to_index(n)], num[v.node_to_index(v.get_real_pi(n))]}); });
        vp::note("delete_virtual_pis");
        const auto b = delete_virtual_pis(v);
        put("devirt", v, b, {{"left", b.num_virtual_pis()}}, va);
    }
}

// ---- views ----
template <class Ntk>
struct Views
{
    Net<Ntk>&    n;
    vp::Rng&     r;
    vp::History& h;

    void levels()
    {
        vp::note("static_depth_view");
        static_depth_view<Ntk> v{n.t};
        auto w = v;
        static_depth_view<Ntk> x{};
        x = w;
        J lv = J::array(), cp = J::array();
        x.foreach_node([&](const auto& i) { lv.push_back(x.level(i)); if (x.is_on_critical_path(i)) cp.push_back(i); });
        h.ev({{"op", "levels"}, {"lv", lv}, {"cp", cp}, {"depth", x.depth()}});
    }
    void bfs()
    {
        vp::note("bfs_topo_view");
        bfs_topo_view<Ntk> v{n.t};
        J a = J::array(), b = J::array(), c = J::array(), d = J::array(), ix = J::array();
        v.foreach_node([&](const auto& i) { a.push_back(i); ix.push_back({v.node_to_index(i), v.index_to_node(v.node_to_index(i))}); });
        v.foreach_node_reverse([&](const auto& i) { b.push_back(i); });
        v.foreach_gate([&](const auto& i) { c.push_back(i); });
        v.foreach_gate_reverse([&](const auto& i) { d.push_back(i); });
        h.ev({{"op", "bfs"}, {"a", a}, {"b", b}, {"c", c}, {"d", d}, {"ix", ix}, {"size", v.size()}, {"gates", v.num_gates()}});
    }
    template <class V>
    static J ed(const mockturtle::edge<V>& e) { return {e.source, e.target}; }
    void edges(bool clean)
    {
        vp::note("network utilities");
        using F = mockturtle::fanout_view<Ntk>;
        F v{n.t};
        J all = J::array(), per = J::array();
        foreach_edge(v, [&](const auto& e) { all.push_back(ed(e)); });
        v.foreach_node(
            [&](const auto& i)
            {
                J out = J::array(), in = J::array(), fi = J::array(), fe = J::array(), paths = J::array();
                foreach_outgoing_edge(v, i, [&](const auto& e) { out.push_back(ed(e)); });
                foreach_incoming_edge(v, i, [&](const auto& e) { in.push_back(ed(e)); });
                int cf = 2;
                if (num_constant_fanins(v, i) <= 1)
                {
                    const auto fc = fanins(v, i);
                    for (const auto& x : fc.fanin_nodes) fi.push_back(x);
                    if (fc.constant_fanin) cf = *fc.constant_fanin ? 1 : 0;
                }
                for (const auto& e : fanin_edges(v, i).fanin_edges) fe.push_back(ed(e));
                const auto ps = all_incoming_edge_paths(v, i);
                if (ps.size() <= 30) for (const auto& p : ps) { J q = J::array(); for (const auto& e : p) q.push_back(ed(e)); paths.push_back(q); }
                per.push_back({{"id", i}, {"out", out}, {"in", in}, {"fo", fanouts(v, i)}, {"fi", fi}, {"cf", cf}, {"nc", num_constant_fanins(v, i)}, {"fe", fe}, {"ip", has_incoming_primary_input(v, i)},
                               {"np", ps.size()}, {"paths", paths}});
            });
        J hi = J::array();
        for (uint32_t k = 0; k <= 3; ++k) hi.push_back(has_high_degree_fanin_nodes(v, k));
        J inv = J::array();
        if (clean) for (const auto x : inverse_levels(v)) inv.push_back(x);
        h.ev({{"op", "edges"}, {"all", all}, {"per", per}, {"hi", hi}, {"inv", inv}});
    }
    void colors()
    {
        vp::note("edge_color_view");
        using V = out_of_place_edge_color_view<Ntk>;
        V v{n.t};
        std::vector<typename V::edge> es;
        foreach_edge(v, [&](const auto& e) { es.push_back({e.source, e.target}); });
        if (es.empty()) return;
        const auto name = [](const auto& e) { return J{e.source, e.target}; };
        J ops = J::array();
        const auto look = [&] { J c = J::array(); for (const auto& e : es) c.push_back({name(e), v.edge_color(e), v.eval_edge_color(e, [](const auto x) { return x % 2 == 1; })}); return c; };
        for (int i = 0; i < 12; ++i)
        {
            const auto& e = r.pick(es);
            const auto& f = r.pick(es);
            const auto  c = static_cast<uint32_t>(r.below(7));
            switch (r.below(6))
            {
                case 0: v.clear_colors(); ops.push_back({{"o", "clear"}, {"see", look()}}); break;
                case 1: v.new_color(); v.paint_edge(e); ops.push_back({{"o", "paint"}, {"e", name(e)}, {"c", v.current_color()}, {"see", look()}}); break;
                case 2: v.paint_edge(e, f); ops.push_back({{"o", "like"}, {"e", name(e)}, {"f", name(f)}, {"see", look()}}); break;
                case 3: ops.push_back({{"o", "same"}, {"e", name(e)}, {"f", name(f)}, {"r", v.eval_edge_color(e, f, [](const auto x, const auto y) { return x <= y; })}, {"see", look()}}); break;
                default: v.paint_edge(e, c); ops.push_back({{"o", "paint"}, {"e", name(e)}, {"c", c}, {"see", look()}});
            }
        }
        h.ev({{"op", "colors"}, {"ops", ops}});
    }
};
template <class Ntk>
void views(vp::Rng& r, int reps)
{
    for (int i = 0; i < reps; ++i)
    {
        vp::note("views");
        vp::History h{"net", {{"x", 0}}};
        Net<Ntk> n{Ntk{}, r, h};
        for (int64_t k = r.in(0, 4); k > 0; --k) n.pi();
        for (int64_t k = r.in(0, 16); k > 0; --k) n.gate();
        // all ends are outputs, or (sometimes) just some
        const bool clean = r.chance(70);
        for (const auto s : std::set<uint64_t>(n.s.begin(), n.s.end())) if (s > 1 && (clean ? n.t.fanout_size(s) == 0 || r.chance(10) : r.chance(30))) n.po(s);
        Views<Ntk> v{n, r, h};
        v.levels();
        v.bfs();
        v.edges(clean);
        v.colors();
        h.close();
    }
}
// levels that count inverters on edges
template <class Ntk>
void clevels(vp::Rng& r, int reps)
{
    for (int i = 0; i < reps; ++i)
    {
        Ntk t{};
        NetGen<Ntk>{t, r}.build(static_cast<int>(r.in(1, 5)), static_cast<int>(r.in(0, 25)), static_cast<int>(r.in(1, 4)), false);
        fiction::depth_view_params p{};
        p.count_complements = r.chance(60);
        p.pi_cost = r.chance(30);
        static_depth_view<Ntk> v{t, {}, p};
        std::map<uint64_t, int> ids;
        const auto d = ndoc(t, &ids);
        J lv = J::array();
        for (const auto& [n, k] : ids) lv.push_back({k, v.level(t.index_to_node(static_cast<uint32_t>(n)))});
        vp::History h{"net", {{"x", 0}}};
        h.ev({{"op", "clevels"}, {"d", d}, {"cc", p.count_complements}, {"lv", lv}, {"depth", v.depth()}});
        h.close();
    }
}
template <class Ntk>
void ranks(vp::Rng& r, int reps)
{
    for (int i = 0; i < reps; ++i)
    {
        vp::note("mutable_rank_view");
        vp::History h{"net", {{"x", 0}}};
        Net<Ntk> n{Ntk{}, r, h};
        for (int64_t k = r.in(1, 5); k > 0; --k) n.pi();
        for (int64_t k = r.in(0, 12); k > 0; --k) n.gate();
        const bool clean = r.chance(80);
        for (const auto s : std::set<uint64_t>(n.s.begin(), n.s.end())) if (s > 1 && (clean ? n.t.fanout_size(s) == 0 : r.chance(40))) n.po(s);
        using R = mutable_rank_view<Ntk>;
        R v{n.t};
        const auto all = [&](const R& x) { J a = J::array(); for (const auto& k : x.get_all_ranks()) a.push_back(k); return a; };
        const auto see = [&](const char* o, J more = {{"x", 0}})
        {
            J pos = J::array(), w = J::array(), gr = J::array(), at = J::array(), nr = J::array(), gi = J::array(), no = J::array(), gs = J::array(), pi = J::array(), ci = J::array(), un = J::array();
            for (uint32_t l = 0; l < v.get_all_ranks().size(); ++l)
            {
                J q = J::array(), q2 = J::array(), q3 = J::array();
                v.foreach_node_in_rank(l, [&](const auto& x) { q.push_back(x); });
                v.foreach_gate_in_rank(l, [&](const auto& x) { q2.push_back(x); });
                for (uint32_t k = 0; k < v.rank_width(l); ++k) q3.push_back(v.at_rank_position(l, k));
                nr.push_back(q), gi.push_back(q2), at.push_back(q3), gr.push_back(v.get_ranks(l)), w.push_back(v.rank_width(l));
                for (const auto& x : v.get_ranks(l)) pos.push_back({x, v.rank_position(x), v.level(x)});
            }
            v.foreach_node([&](const auto& x) { no.push_back(x); });
            v.foreach_gate([&](const auto& x) { gs.push_back(x); });
            v.foreach_pi([&](const auto& x) { pi.push_back(x); });
            v.foreach_ci([&](const auto& x) { ci.push_back(x); });
            v.foreach_pi_unranked([&](const auto& x) { un.push_back(x); });
            J e = {{"op", "rank"}, {"o", o}, {"all", all(v)}, {"pos", pos}, {"w", w}, {"gr", gr}, {"at", at}, {"nr", nr}, {"gi", gi}, {"no", no}, {"gs", gs}, {"pi", pi}, {"ci", ci}, {"un", un}, {"width", v.width()}, {"valid", v.check_validity()}};
            e.update(more);
            h.ev(e);
        };
        see("init");
        bool upd = true;
        for (int k = 0; k < 10; ++k)
        {
            const auto m = static_cast<uint32_t>(v.get_all_ranks().size());
            const auto l = static_cast<uint32_t>(r.below(m));
            auto       q = v.get_ranks(l);
            switch (r.below(9))
            {
                case 0: case 1:
                    if (q.size() > 1) { const auto a = r.pick(q), b = r.pick(q); if (a != b) { v.swap(a, b); see("swap", {{"a", a}, {"b", b}}); } }
                    break;
                case 2: r.shuffle(q); v.set_ranks(l, q); see("set", {{"l", l}, {"q", q}}); break;
                case 3: { auto qs = v.get_all_ranks(); for (auto& x : qs) r.shuffle(x); v.set_all_ranks(qs); J j = J::array(); for (const auto& x : qs) j.push_back(x); see("setall", {{"q", j}}); break; }
                case 4: { const bool up = r.chance(50); v.sort_rank(l, [&](const auto& a, const auto& b) { return up ? a < b : a > b; }); see("sort", {{"l", l}, {"up", up}}); break; }
                case 5: if (v.get_ranks(0).size() == v.num_pis() && v.num_pis() > 0) { v.rearrange_pis(); see("pis"); } break;
                case 6: { R w{v}; R x{}; x = w; v = x; see("copy"); break; }
                case 7:
                {
                    const uint64_t x = v.create_pi();
                    h.ev({{"op", "pi"}, {"id", x}});
                    n.s.push_back(x);
                    v.on_add(x);
                    see("add", {{"n", x}});
                    upd = false;
                    break;
                }
                default:
                    if (r.chance(50))
                    {
                        const std::vector<uint64_t> c{n.pick(), n.pick()};
                        const auto g = r.pick(two);
                        const uint64_t x = create(static_cast<Ntk&>(v), g, c);
                        h.ev({{"op", "gate"}, {"g", g}, {"ch", c}, {"id", x}});
                        n.s.push_back(x);
                        v.on_add(x);
                        see("add", {{"n", x}});
                        if (r.chance(70)) { v.create_po(x); h.ev({{"op", "po"}, {"n", x}}); }
                        upd = false;
                    }
                    else { v.update_ranks(); see("update"); upd = true; }
            }
        }
        (void)upd;
        // a view with ranks of one's own choice is valid if the choice agrees with the levels
        {
            auto qs = v.get_all_ranks();
            R    w{static_cast<const Ntk&>(v)};
            qs = w.get_all_ranks();
            for (auto& q : qs) r.shuffle(q);
            if (r.chance(50) && qs.size() > 1 && !qs[0].empty() && !qs[1].empty()) std::swap(qs[0][0], qs[1][0]);
            R x{static_cast<const Ntk&>(v), qs};
            J j = J::array();
            for (const auto& q : qs) j.push_back(q);
            h.ev({{"op", "own"}, {"q", j}, {"valid", x.check_validity()}, {"all", all(x)}});
        }
        h.close();
    }
}
int main(int argc, char** argv)
{
    vp::init(argc, argv);
    vp::Rng   r{vp::seed * 173 + 11};
    const int k = vp::thorough ? 25 : 3;
    if (vp::is_mode("net"))
    {
        tables(r);
        nets<tec>(r, 60 * k);
        nets<ntec>(r, 30 * k);
        nets<vtec>(r, 60 * k);
    }
    if (vp::is_mode("xform"))
    {
        transforms<ntec, ntec>(r, 150 * k);
        transforms<aigs, ntec>(r, 60 * k);
        transforms<migs, ntec>(r, 60 * k);
        transforms<mockturtle::klut_network, tec>(r, 30 * k);
        transforms<ntec, aigs>(r, 40 * k);
        transforms<tec, mockturtle::xag_network>(r, 30 * k);
        transforms<tec, tec>(r, 60 * k);
        virtuals<vtec>(r, 60 * k);
        virtuals<virtual_pi_network<mockturtle::aig_network>>(r, 40 * k);
        virtuals<mockturtle::names_view<vtec>>(r, 60 * k);
    }
    if (vp::is_mode("views"))
    {
        views<tec>(r, 80 * k);
        views<vtec>(r, 20 * k);
        clevels<mockturtle::aig_network>(r, 50 * k);
        clevels<mockturtle::mig_network>(r, 30 * k);
    }
    if (vp::is_mode("ranks"))
    {
        ranks<tec>(r, 60 * k);
        ranks<vtec>(r, 20 * k);
    }
    return vp::finish();
}
