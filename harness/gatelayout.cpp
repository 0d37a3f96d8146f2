// Gate-level layouts as a state machine over several handles.
#include "common.hpp"

#include <fiction/layouts/cartesian_layout.hpp>
#include <fiction/layouts/clocked_layout.hpp>
#include <fiction/layouts/gate_level_layout.hpp>
#include <fiction/layouts/shifted_cartesian_layout.hpp>
#include <fiction/layouts/tile_based_layout.hpp>
#include <kitty/dynamic_truth_table.hpp>
#include <kitty/bit_operations.hpp>

#include <array>
#include <optional>

static J bits(const kitty::dynamic_truth_table& t)
{
    J a = J::array();
    for (uint64_t i = 0; i < t.num_bits(); ++i) a.push_back(static_cast<int>(kitty::get_bit(t, i)));
    return a;
}

template <class Lyt>
struct Machine
{
    using node = mockturtle::node<Lyt>;
    using sig  = mockturtle::signal<Lyt>;
    using T    = tile<Lyt>;

    const char*      arr;
    vp::Rng&         r;
    vp::History      h{"gate"};
    std::vector<Lyt> l;

    J tl(const T& t) const { return t.is_dead() ? J::array() : js(t); }
    J sg(const Lyt& x, const sig s) const
    {
        if (s == x.get_constant(false)) return J::array({-1});
        if (s == x.get_constant(true)) return J::array({-2});
        return js(T{s});
    }
    T  any(const Lyt& x) { return T(r.below(x.x() + 1), r.below(x.y() + 1), r.below(x.z() + 1)); }
    std::vector<T> all(const Lyt& x) const
    {
        std::vector<T> v;
        for (uint64_t z = 0; z <= static_cast<uint64_t>(x.z()); ++z)
            for (uint64_t y = 0; y <= static_cast<uint64_t>(x.y()); ++y)
                for (uint64_t xx = 0; xx <= static_cast<uint64_t>(x.x()); ++xx) v.emplace_back(xx, y, z);
        return v;
    }
    template <bool RC>
    J dirs(const Lyt& x, const T& t)
    {
        J i = J::array(), o = J::array();
        if (x.template has_northern_incoming_signal<RC>(t)) i.push_back("n");
        if (x.template has_north_eastern_incoming_signal<RC>(t)) i.push_back("ne");
        if (x.template has_eastern_incoming_signal<RC>(t)) i.push_back("e");
        if (x.template has_south_eastern_incoming_signal<RC>(t)) i.push_back("se");
        if (x.template has_southern_incoming_signal<RC>(t)) i.push_back("s");
        if (x.template has_south_western_incoming_signal<RC>(t)) i.push_back("sw");
        if (x.template has_western_incoming_signal<RC>(t)) i.push_back("w");
        if (x.template has_north_western_incoming_signal<RC>(t)) i.push_back("nw");
        if (x.template has_northern_outgoing_signal<RC>(t)) o.push_back("n");
        if (x.template has_north_eastern_outgoing_signal<RC>(t)) o.push_back("ne");
        if (x.template has_eastern_outgoing_signal<RC>(t)) o.push_back("e");
        if (x.template has_south_eastern_outgoing_signal<RC>(t)) o.push_back("se");
        if (x.template has_southern_outgoing_signal<RC>(t)) o.push_back("s");
        if (x.template has_south_western_outgoing_signal<RC>(t)) o.push_back("sw");
        if (x.template has_western_outgoing_signal<RC>(t)) o.push_back("w");
        if (x.template has_north_western_outgoing_signal<RC>(t)) o.push_back("nw");
        return {{"i", i}, {"o", o}, {"noi", x.template has_no_incoming_signal<RC>(t)}, {"noo", x.template has_no_outgoing_signal<RC>(t)}, {"opp", x.template has_opposite_incoming_and_outgoing_signals<RC>(t)}};
    }
    template <bool RC>
    J flow(const Lyt& x, node n)
    {
        J fi = J::array(), fo = J::array(), in = J::array(), out = J::array();
        const auto a = [&](const auto& s) { fi.push_back(sg(x, s)); };
        x.template foreach_fanin<decltype(a), RC>(n, std::move(a));
        const auto b = [&](const auto& m) { fo.push_back(m); };
        x.template foreach_fanout<decltype(b), RC>(n, std::move(b));
        const T t = x.get_tile(n);
        if (!t.is_dead())
        {
            for (const auto& q : x.template incoming_data_flow<RC>(t)) in.push_back(js(q));
            for (const auto& q : x.template outgoing_data_flow<RC>(t)) out.push_back(js(q));
        }
        return {{"fi", fi}, {"fo", fo}, {"in", in}, {"out", out}, {"fis", x.template fanin_size<RC>(n)}, {"fos", x.template fanout_size<RC>(n)}};
    }
    J kinds(const Lyt& x, node n)
    {
        J k = J::array();
        if (x.is_buf(n)) k.push_back("buf");
        if (x.is_inv(n)) k.push_back("inv");
        if (x.is_and(n)) k.push_back("and");
        if (x.is_nand(n)) k.push_back("nand");
        if (x.is_or(n)) k.push_back("or");
        if (x.is_nor(n)) k.push_back("nor");
        if (x.is_lt(n)) k.push_back("lt");
        if (x.is_ge(n)) k.push_back("ge");
        if (x.is_gt(n)) k.push_back("gt");
        if (x.is_le(n)) k.push_back("le");
        if (x.is_xor(n)) k.push_back("xor");
        if (x.is_xnor(n)) k.push_back("xnor");
        if (x.is_maj(n)) k.push_back("maj");
        return k;
    }
    J basic(const Lyt& x)
    {
        J at = J::array(), nd = J::array(), pis = J::array(), pos = J::array(), alive = J::array(), gates = J::array(), wires = J::array(), inm = J::array(), onm = J::array(), flags = J::array();
        for (const auto& t : all(x))
        {
            at.push_back(x.get_node(t));
            flags.push_back((x.is_empty_tile(t) ? 1 : 0) + (x.is_gate_tile(t) ? 2 : 0) + (x.is_wire_tile(t) ? 4 : 0) + (x.is_pi_tile(t) ? 8 : 0) + (x.is_po_tile(t) ? 16 : 0));
        }
        x.foreach_pi([&](const auto& n) { pis.push_back(n); });
        x.foreach_po([&](const auto& s) { pos.push_back(sg(x, s)); });
        x.foreach_node([&](const auto& n) { alive.push_back(n); });
        x.foreach_gate([&](const auto& n) { gates.push_back(n); });
        x.foreach_wire([&](const auto& n) { wires.push_back(n); });
        for (uint32_t i = 0; i < x.num_pis(); ++i) inm.push_back(x.get_input_name(i) + (x.pi_at(i) == pis[i].get<node>() ? "" : "?"));
        for (uint32_t i = 0; i < x.num_pos(); ++i) onm.push_back(x.get_output_name(i) + (x.po_at(i) == static_cast<sig>(x.get_tile(x.get_node(x.po_at(i)))) ? "" : "?"));
        for (node n = 2; n < x.size(); ++n)
            nd.push_back({{"t", tl(x.get_tile(n))}, {"d", x.is_dead(n)}, {"f", bits(x.node_function(n))}, {"nm", x.get_name(n)}, {"pi", x.is_pi(n) && x.is_ci(n)}, {"po", x.is_po(n) && x.is_co(n)}, {"gt", x.is_gate(n)}, {"v", x.value(n)}, {"vis", x.visited(n)}});
        return {{"X", x.x()}, {"Y", x.y()}, {"Z", x.z()}, {"nm", x.get_layout_name()}, {"size", x.size()}, {"npi", x.num_pis()}, {"npo", x.num_pos()}, {"ng", x.num_gates()}, {"nw", x.num_wires()}, {"nc", x.num_crossings()}, {"empty", x.is_empty()},
                {"at", at}, {"fl", flags}, {"nd", nd}, {"pis", pis}, {"pos", pos}, {"alive", alive}, {"gates", gates}, {"wires", wires}, {"inm", inm}, {"onm", onm}};
    }
    J detail(const Lyt& x, int H)
    {
        J ns = J::array();
        for (node n = 2; n < x.size(); ++n)
        {
            J e{{"n", n}, {"k", kinds(x, n)}, {"c", flow<true>(x, n)}, {"u", flow<false>(x, n)}, {"fan", x.is_fanout(n)}, {"dc", 0}, {"du", 0}};
            const T t = x.get_tile(n);
            e["placed"] = !t.is_dead();
            if (!t.is_dead())
            {
                e["dc"] = dirs<true>(x, t);
                e["du"] = dirs<false>(x, t);
            }
            // evaluate the node where all its inputs are connected
            const auto k = x.fanin_size(n);
            J          ev = J::array();
            if (k > 0 && k == x.node_function(n).num_vars())
            {
                std::vector<kitty::dynamic_truth_table> ins;
                for (uint32_t i = 0; i < k; ++i)
                {
                    kitty::dynamic_truth_table tt{3};
                    for (int b = 0; b < 8; ++b)
                        if (r.chance(50)) kitty::set_bit(tt, b);
                    ins.push_back(tt);
                }
                const auto res = x.compute(n, ins.begin(), ins.end());
                for (int b = 0; b < 8; ++b)
                {
                    J                 in = J::array();
                    std::vector<bool> bs;
                    for (const auto& i : ins)
                    {
                        in.push_back(static_cast<int>(kitty::get_bit(i, b)));
                        bs.push_back(kitty::get_bit(i, b));
                    }
                    ev.push_back({{"in", in}, {"v", static_cast<int>(kitty::get_bit(res, b))}, {"b", static_cast<int>(x.compute(n, bs.begin(), bs.end()))}});
                }
            }
            e["ev"] = ev;
            ns.push_back(e);
        }
        return {{"h", H}, {"ns", ns}};
    }
    void record(J e, size_t acting, int detail_pct)
    {
        J obs = J::array(), det = J::array();
        for (const auto& x : l) obs.push_back(basic(x));
        if (r.chance(detail_pct)) det.push_back(detail(l[acting], static_cast<int>(acting) + 1));
        e["h"]   = acting + 1;
        e["obs"] = obs;
        e["det"] = det;
        h.ev(e);
    }
    void fresh(int X, int Y, int Z, const std::string& b, int n, int how, const std::string& nm)
    {
        vp::note("construct");
        const typename Lyt::aspect_ratio ar(X, Y, Z);
        J e{{"op", "new"}, {"hex", is_hexagonal_layout_v<Lyt>}, {"arr", arr}, {"X", X}, {"Y", Y}, {"Z", Z}, {"nm", nm}, {"name", b}, {"n", n}};
        if (how == 0) l.emplace_back(ar, make<Lyt>(b, n), nm);
        else if (how == 1)
        {
            l.emplace_back(ar, nm);
            l.back().replace_clocking_scheme(make<Lyt>(b, n));
        }
        else
        {
            // on top of an existing clocked layout
            using CL = clocked_layout<typename base_of<Lyt>::type>;
            const CL c{ar, make<CL>(b, n)};
            l.emplace_back(c);
            l.back().set_layout_name(nm);
        }
        record(e, l.size() - 1, 0);
    }
    template <class L>
    struct base_of;
    template <class B>
    struct base_of<gate_level_layout<clocked_layout<B>>>
    {
        using type = B;
    };
    sig child(const Lyt& x)
    {
        if (r.chance(4)) return x.get_constant(r.chance(50));
        if (r.chance(85))
        {
            std::vector<T> occ;
            for (const auto& t : all(x))
                if (!x.is_empty_tile(t)) occ.push_back(t);
            if (!occ.empty()) return static_cast<sig>(r.pick(occ));
        }
        return static_cast<sig>(any(x));
    }
    // a signal from around t so that nodes tend to be connected
    sig near(const Lyt& x, const T& t)
    {
        std::vector<T> c;
        for (const auto& q : all(x))
            if (!x.is_empty_tile(q) && x.is_adjacent_elevation_of(t, q)) c.push_back(q);
        std::vector<T> in;
        for (const auto& q : c)
            if (x.is_incoming_clocked(t, q)) in.push_back(q);
        if (!in.empty() && r.chance(80)) return static_cast<sig>(r.pick(in));
        if (!c.empty() && r.chance(80)) return static_cast<sig>(r.pick(c));
        return child(x);
    }
    // performs one operation; args override the random choices (replay of generated behaviours)
    void op(const std::string& o, size_t i, std::optional<T> at, std::vector<sig> ch, node n, int pct)
    {
        auto&   x  = l[i];
        const T t  = at ? *at : any(x);
        const auto sgs = [&](const std::vector<sig>& v) { J a = J::array(); for (const auto s : v) a.push_back(sg(x, s)); return a; };
        vp::note(o);
        if (o == "pi")
        {
            const std::string nm = r.chance(40) ? std::string(1, static_cast<char>('a' + r.below(20))) : "";
            const auto s = x.create_pi(nm, t);
            record({{"op", "pi"}, {"nm", nm}, {"t", js(t)}, {"ret", sg(x, s)}}, i, pct);
        }
        else if (o == "po")
        {
            const std::string nm = r.chance(40) ? std::string(1, static_cast<char>('p' + r.below(10))) : "";
            const sig c = ch.empty() ? near(x, t) : ch[0];
            const auto s = x.create_po(c, nm, t);
            record({{"op", "po"}, {"nm", nm}, {"t", js(t)}, {"c", sg(x, c)}, {"ret", sg(x, s)}}, i, pct);
        }
        else if (o == "move")
        {
            J c = sgs(ch);
            const auto s = x.move_node(n, t, ch);
            record({{"op", "move"}, {"n", n}, {"t", js(t)}, {"ch", c}, {"ret", sg(x, s)}}, i, pct);
        }
        else if (o == "clear")
        {
            x.clear_tile(t);
            record({{"op", "clear"}, {"t", js(t)}}, i, pct);
        }
        else if (o == "connect")
        {
            J c = sg(x, ch[0]);
            x.connect(ch[0], n);
            record({{"op", "connect"}, {"n", n}, {"c", c}}, i, pct);
        }
        else if (o == "clone")
        {
            l.push_back(x.clone());
            record({{"op", "clone"}}, i, 0);
        }
        else if (o == "copy")
        {
            Lyt y{x};
            l.push_back(y);
            record({{"op", "copy"}}, i, 0);
        }
        else if (o == "custom")
        {
            const int k = 1 + r.below(3);
            kitty::dynamic_truth_table f(k);
            for (uint64_t b = 0; b < f.num_bits(); ++b)
                if (r.chance(50)) kitty::set_bit(f, b);
            while (static_cast<int>(ch.size()) < k) ch.push_back(near(x, t));
            ch.resize(k);
            const J c = sgs(ch);
            const auto s = x.create_node(ch, f, t);
            record({{"op", "create"}, {"fn", "custom"}, {"f", bits(f)}, {"ch", c}, {"t", js(t)}, {"ret", sg(x, s)}}, i, pct);
        }
        else
        {
            const size_t k = (o == "buf" || o == "inv") ? 1 : o == "maj" ? 3 : 2;
            while (ch.size() < k) ch.push_back(near(x, t));
            const auto a = ch[0], b = k > 1 ? ch[1] : 0, c = k > 2 ? ch[2] : 0;
            ch.resize(k);
            const J cj = sgs(ch);
            sig s{};
            if (o == "buf") s = x.create_buf(a, t);
            if (o == "inv") s = x.create_not(a, t);
            if (o == "and") s = x.create_and(a, b, t);
            if (o == "nand") s = x.create_nand(a, b, t);
            if (o == "or") s = x.create_or(a, b, t);
            if (o == "nor") s = x.create_nor(a, b, t);
            if (o == "lt") s = x.create_lt(a, b, t);
            if (o == "ge") s = x.create_ge(a, b, t);
            if (o == "gt") s = x.create_gt(a, b, t);
            if (o == "le") s = x.create_le(a, b, t);
            if (o == "xor") s = x.create_xor(a, b, t);
            if (o == "xnor") s = x.create_xnor(a, b, t);
            if (o == "maj") s = x.create_maj(a, b, c, t);
            record({{"op", "create"}, {"fn", o}, {"f", J::array()}, {"ch", cj}, {"t", js(t)}, {"ret", sg(x, s)}}, i, pct);
        }
    }
    void random(int steps)
    {
        static const std::vector<std::string> fns{"buf", "buf", "buf", "inv", "and", "nand", "or", "nor", "lt", "ge", "gt", "le", "xor", "xnor", "maj", "custom", "custom"};
        const auto scheme = [&]
        {
            std::string b = r.pick(bases);
            return std::make_pair(b, both(b) ? (r.chance(50) ? 3 : 4) : default_phases(b));
        };
        {
            const auto [b, n] = scheme();
            fresh(r.below(4), r.below(4), r.below(2), b, n, r.below(3), r.chance(50) ? "lyt" : "");
        }
        for (int s = 0; s < steps; ++s)
        {
            const auto i = r.below(l.size());
            auto&      x = l[i];
            const auto k = r.below(100);
            const auto some = [&] { return static_cast<node>(2 + r.below(x.size() - 2)); };
            if (k < 10) op("pi", i, {}, {}, 0, 20);
            else if (k < 20) op("po", i, {}, {}, 0, 20);
            else if (k < 50) op(r.pick(fns), i, {}, {}, 0, 30);
            else if (k < 65)
            {
                if (x.size() <= 2) continue;
                const auto       n = some();
                const T          t = r.chance(20) && !x.get_tile(n).is_dead() ? x.get_tile(n) : any(x);
                std::vector<sig> ch;
                for (int j = 0, m = r.below(4); j < m; ++j) ch.push_back(near(x, t));
                op("move", i, t, ch, n, 30);
            }
            else if (k < 72)
            {
                // clear, preferring occupied tiles
                T t = any(x);
                for (int j = 0; j < 5 && x.is_empty_tile(t); ++j) t = any(x);
                op("clear", i, t, {}, 0, 30);
            }
            else if (k < 80)
            {
                if (x.size() <= 2) continue;
                const auto n = some();
                op("connect", i, {}, {x.get_tile(n).is_dead() ? child(x) : near(x, x.get_tile(n))}, n, 30);
            }
            else if (k < 83) { if (l.size() < 3) op("clone", i, {}, {}, 0, 0); }
            else if (k < 85) { if (l.size() < 3) op("copy", i, {}, {}, 0, 0); }
            else if (k < 88)
            {
                const std::string nm = std::string(1 + r.below(3), static_cast<char>('A' + r.below(26)));
                if (x.size() <= 2) { x.set_layout_name(nm); record({{"op", "lname"}, {"nm", nm}}, i, 0); continue; }
                const auto n = some();
                switch (r.below(5))
                {
                    case 0: x.set_layout_name(nm); record({{"op", "lname"}, {"nm", nm}}, i, 0); break;
                    case 1: x.set_name(n, nm); record({{"op", "name"}, {"n", n}, {"nm", nm}}, i, 0); break;
                    case 2:
                        if (!x.get_tile(n).is_dead()) { x.set_name(x.make_signal(n), nm); record({{"op", "name"}, {"n", n}, {"nm", nm}}, i, 0); }
                        break;
                    case 3:
                    {
                        const uint32_t ix = r.below(x.num_pis() + 1);
                        x.set_input_name(ix, nm);
                        record({{"op", "iname"}, {"ix", ix}, {"nm", nm}}, i, 0);
                        break;
                    }
                    default:
                    {
                        const uint32_t ix = r.below(x.num_pos() + 1);
                        x.set_output_name(ix, nm);
                        record({{"op", "oname"}, {"ix", ix}, {"nm", nm}}, i, 0);
                    }
                }
            }
            else if (k < 92)
            {
                // both layers of a column share their clock zone
                const T t = any(x);
                const uint8_t c = r.below(4);
                x.assign_clock_number({t.x, t.y, 0}, c);
                x.assign_clock_number({t.x, t.y, 1}, c);
                record({{"op", "clk"}, {"t", js(t)}, {"c", c}}, i, 30);
            }
            else if (k < 94)
            {
                const auto [b, n] = scheme();
                x.replace_clocking_scheme(make<Lyt>(b, n));
                record({{"op", "scheme"}, {"name", b}, {"n", n}}, i, 30);
            }
            else if (k < 95)
            {
                const int X = x.x() + r.below(2), Y = x.y() + r.below(2), Z = x.z();
                x.resize(typename Lyt::aspect_ratio(X, Y, Z));
                record({{"op", "resize"}, {"X", X}, {"Y", Y}, {"Z", Z}}, i, 30);
            }
            else if (x.size() > 2)
            {
                const auto     n = some();
                const uint32_t v = r.below(50);
                switch (r.below(6))
                {
                    case 0: x.set_value(n, v); record({{"op", "val"}, {"n", n}, {"v", v}}, i, 0); break;
                    case 1: { const auto o = x.value(n); const auto p = x.incr_value(n); record({{"op", "val"}, {"n", n}, {"v", o == p ? o + 1 : 999}}, i, 0); break; }
                    case 2: { if (x.value(n) == 0) break; const auto o = x.value(n); const auto p = x.decr_value(n); record({{"op", "val"}, {"n", n}, {"v", p}, {"was", o}}, i, 0); break; }
                    case 3: x.set_visited(n, v); record({{"op", "vis"}, {"n", n}, {"v", v}}, i, 0); break;
                    case 4: x.clear_values(); record({{"op", "clearval"}}, i, 0); break;
                    default: x.clear_visited(); record({{"op", "clearvis"}}, i, 0);
                }
            }
        }
        if (l.size() < 3 && r.chance(30)) fresh(2, 2, 1, "2DDWAVE", 4, 2, "");
        h.close();
    }
    // replays a behaviour generated from the specification
    void replay(const J& b)
    {
        fresh(b[0]["X"], b[0]["Y"], b[0]["Z"], b[0]["name"], b[0]["n"], r.below(3), "");
        const auto tt = [](const J& c) { return T(c[0].get<uint64_t>(), c[1].get<uint64_t>(), c[2].get<uint64_t>()); };
        for (size_t k = 1; k < b.size(); ++k)
        {
            const auto& e = b[k];
            const size_t i = e["h"].get<size_t>() - 1;
            std::vector<sig> ch;
            if (e.contains("ch"))
                for (const auto& c : e["ch"]) ch.push_back(static_cast<sig>(tt(c)));
            op(e["op"], i, e.contains("t") ? std::optional<T>{tt(e["t"])} : std::nullopt, ch, e.value("n", 0), 60);
        }
        h.close();
    }
};

template <class B>
void all(const char* arr)
{
    using Lyt = gate_level_layout<clocked_layout<B>>;
    vp::Rng r{vp::seed * 911 + arr[0] * 3 + arr[1]};
    if (vp::is_mode("random"))
        for (int k = 0; k < (vp::thorough ? 400 : 40); ++k) Machine<Lyt>{arr, r}.random(vp::thorough ? 45 : 30);
    if (vp::is_mode("generated") && std::string{arr} == "cart")
    {
        std::ifstream f(vp::script_path);
        for (std::string line; std::getline(f, line);) Machine<Lyt>{arr, r}.replay(J::parse(line));
    }
}

int main(int argc, char** argv)
{
    vp::init(argc, argv);
    using U = offset::ucoord_t;
    all<tile_based_layout<cartesian_layout<U>>>("cart");
    all<tile_based_layout<hexagonal_layout<U, odd_row_hex>>>("odd_row");
    all<tile_based_layout<hexagonal_layout<U, even_column_hex>>>("even_col");
    all<tile_based_layout<shifted_cartesian_layout<U, odd_column_cartesian>>>("odd_col");
    return vp::finish();
}
