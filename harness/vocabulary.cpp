// Conformance driver for the technology vocabulary headers.
#include "vp.hpp"

#include <fiction/algorithms/simulation/sidb/potential_to_distance_conversion.hpp>
#include <fiction/algorithms/simulation/sidb/sidb_simulation_parameters.hpp>
#include <fiction/technology/cell_ports.hpp>
#include <fiction/technology/cell_technologies.hpp>
#include <fiction/technology/constants.hpp>
#include <fiction/technology/sidb_charge_state.hpp>
#include <fiction/technology/sidb_defects.hpp>
#include <fiction/technology/technology_mapping_library.hpp>

#include <functional>
#include <set>
#include <sstream>

using namespace fiction;
using vp::J;

static std::string tname(char c) { return c == ' ' ? "e" : c == '0' ? "c0" : c == '1' ? "c1" : std::string(1, c); }

template <class Tech, class F>
void cells(vp::Table& tb, const char* tech, const std::vector<typename Tech::cell_type>& types, F&& extra)
{
    for (auto t : types)
    {
        J c = J::array();
        if (Tech::is_empty_cell(t)) c.push_back("empty");
        if (Tech::is_normal_cell(t)) c.push_back("normal");
        if (Tech::is_input_cell(t)) c.push_back("input");
        if (Tech::is_output_cell(t)) c.push_back("output");
        extra(t, c);
        tb.ev({{"op", "cell"}, {"tech", tech}, {"type", tname(static_cast<char>(t))}, {"classes", c}});
    }
}
template <class Tech>
void modes(vp::Table& tb, const char* tech)
{
    using M = typename Tech::cell_mode;
    for (int m = 0; m < 4; ++m)
    {
        const auto mm = static_cast<M>(m);
        J          c  = J::array();
        if (Tech::is_normal_cell_mode(mm)) c.push_back("normal");
        if (Tech::is_rotated_cell_mode(mm)) c.push_back("rotated");
        if (Tech::is_vertical_cell_mode(mm)) c.push_back("vertical");
        if (Tech::is_crossover_cell_mode(mm)) c.push_back("crossover");
        tb.ev({{"op", "mode"}, {"tech", tech}, {"mode", m}, {"classes", c}});
    }
}
template <class Tech>
void consts(typename Tech::cell_type t, J& c)
{
    if (Tech::is_const_0_cell(t)) c.push_back("const0");
    if (Tech::is_const_1_cell(t)) c.push_back("const1");
    if (Tech::is_constant_cell(t)) c.push_back("const");
}

// --- GENLIB expressions: !, *, ^ and + over a, b, c, in the usual precedence (! binds tightest, then *, then ^, then +)
struct Expr
{
    const std::string& s;
    size_t             p = 0;
    int                m = 0, vars = 0;
    int sum() { int v = xr(); while (p < s.size() && s[p] == '+') { ++p; const int w = xr(); v |= w; } return v; }
    int xr() { int v = prod(); while (p < s.size() && s[p] == '^') { ++p; const int w = prod(); v ^= w; } return v; }
    int prod() { int v = lit(); while (p < s.size() && s[p] == '*') { ++p; const int w = lit(); v &= w; } return v; }
    int lit()
    {
        if (s[p] == '!') { ++p; return 1 - lit(); }
        if (s[p] == '(') { ++p; const int v = sum(); ++p; return v; }
        if (s.compare(p, 6, "CONST0") == 0) { p += 6; return 0; }
        if (s.compare(p, 6, "CONST1") == 0) { p += 6; return 1; }
        const int k = s[p++] - 'a';
        vars        = std::max(vars, k + 1);
        return (m >> k) & 1;
    }
};
void genlib(vp::Table& tb, const char* text, const std::string& name, bool decay)
{
    std::istringstream in{text};
    std::string        line;
    while (std::getline(in, line))
    {
        const auto  a = line.find("O=");
        const auto  b = line.find(';', a);
        std::string e = line.substr(a + 2, b - a - 2);
        Expr        probe{e};
        probe.sum();
        J tt = J::array();
        for (int m = 0; m < (1 << probe.vars); ++m)
        {
            Expr x{e};
            x.m = m;
            tt.push_back(x.sum());
        }
        if (decay) tb.ev({{"op", "decay"}, {"of", name}, {"vars", probe.vars}, {"tt", tt}});
        else tb.ev({{"op", "gate"}, {"name", name}, {"tt", tt}});
    }
}

J jp(const port_position& p) { return J::array({p.x, p.y}); }
J jp(const port_direction& p) { return p.dir; }
template <class P>
J js(const std::set<P>& s)
{
    J r = J::array();
    for (const auto& p : s) r.push_back(jp(p));
    return r;
}
uint16_t rport_v(vp::Rng& g)
{
    static const std::vector<uint16_t> odd{255, 256, 257, 258, 511, 32767, 32768, 65280, 65534, 65535};
    return g.chance(85) ? static_cast<uint16_t>(g.below(5)) : g.pick(odd);
}
port_position  rport(vp::Rng& g, port_position*)
{
    const auto x = rport_v(g), y = rport_v(g);
    return {x, y, g.chance(50), g.chance(50)};
}
port_direction rport(vp::Rng& g, port_direction*) { return port_direction{static_cast<port_direction::cardinal>(g.below(9)), g.chance(50), g.chance(50)}; }

template <class P>
void port_lists(vp::Rng& g, const char* t)
{
    J          wi, wo;  // what was put into the most recently created port list
    const auto rs = [&](J& want)
    {
        std::set<P> s;
        want = J::array();
        for (uint64_t k = g.below(5); k > 0; --k)
        {
            const auto p = rport(g, static_cast<P*>(nullptr));
            s.insert(p);
            want.push_back(jp(p));
        }
        return s;
    };
    vp::History  h{"ports", J::object({{"t", t}})};
    const auto i0 = rs(wi), o0 = rs(wo);
    port_list<P> l{i0, o0};
    h.ev({{"op", "pl_new"}, {"t", t}, {"i", wi}, {"o", wo}, {"ri", js(l.inp)}, {"ro", js(l.out)}});
    for (int k = 0; k < 12; ++k)
    {
        const auto ik = rs(wi), ok = rs(wo);
        port_list<P> o{ik, ok};
        if (g.chance(60))
        {
            const J i = wi, u = wo;
            l += o;
            h.ev({{"op", "pl_add"}, {"t", t}, {"i", i}, {"o", u}, {"ri", js(l.inp)}, {"ro", js(l.out)}});
        }
        else
        {
            if (g.chance(50)) o = l;
            if (g.chance(30)) std::swap(o.inp, o.out);
            h.ev({{"op", "pl_eq"}, {"i", js(o.inp)}, {"o", js(o.out)}, {"r", l == o}, {"heq", std::hash<port_list<P>>{}(l) == std::hash<port_list<P>>{}(o)}});
        }
    }
    h.close();
}

void technology(vp::Rng& g)
{
    vp::Table tb{"vocabulary"};
    {
        using T = qca_technology;
        using C = T::cell_type;
        cells<T>(tb, "qca", {C::EMPTY, C::NORMAL, C::INPUT, C::OUTPUT, C::CONST_0, C::CONST_1}, [](C t, J& c) { consts<T>(t, c); });
        modes<T>(tb, "qca");
    }
    {
        using T = mol_qca_technology;
        using C = T::cell_type;
        const std::vector<C> all{C::EMPTY, C::NORMAL1, C::NORMAL2, C::NORMAL3, C::NORMAL4, C::INPUT, C::OUTPUT, C::CONST_0, C::CONST_1};
        cells<T>(tb, "mol", all,
                 [](C t, J& c)
                 {
                     consts<T>(t, c);
                     if (T::is_normal_cell1(t)) c.push_back("normal1");
                     if (T::is_normal_cell2(t)) c.push_back("normal2");
                     if (T::is_normal_cell3(t)) c.push_back("normal3");
                     if (T::is_normal_cell4(t)) c.push_back("normal4");
                 });
        for (auto t : all) tb.ev({{"op", "molclock"}, {"type", tname(static_cast<char>(t))}, {"r", T::cell_clock_number(t)}});
        modes<T>(tb, "mol");
    }
    {
        using T = inml_technology;
        using C = T::cell_type;
        cells<T>(tb, "inml", {C::EMPTY, C::NORMAL, C::INPUT, C::OUTPUT, C::SLANTED_EDGE_UP_MAGNET, C::SLANTED_EDGE_DOWN_MAGNET, C::INVERTER_MAGNET, C::CROSSWIRE_MAGNET, C::FANOUT_COUPLER_MAGNET},
                 [](C t, J& c)
                 {
                     if (T::is_slanted_edge_magnet(t)) c.push_back("slant");
                     if (T::is_slanted_edge_up_magnet(t)) c.push_back("slantup");
                     if (T::is_slanted_edge_down_magnet(t)) c.push_back("slantdown");
                     if (T::is_inverter_magnet(t)) c.push_back("inverter");
                     if (T::is_crosswire_magnet(t)) c.push_back("crosswire");
                     if (T::is_fanout_coupler_magnet(t)) c.push_back("coupler");
                 });
    }
    {
        using T = sidb_technology;
        using C = T::cell_type;
        cells<T>(tb, "sidb", {C::EMPTY, C::NORMAL, C::INPUT, C::OUTPUT, C::LOGIC}, [](C t, J& c) { if (T::is_logic_cell(t)) c.push_back("logic"); });
    }
    for (auto [t, n] : std::vector<std::pair<const char*, const char*>>{{GATE_ZERO, "zero"}, {GATE_ONE, "one"}, {GATE_BUF, "buf"}, {GATE_INV, "inv"}, {GATE_AND2, "and2"}, {GATE_NAND2, "nand2"},
             {GATE_OR2, "or2"}, {GATE_NOR2, "nor2"}, {GATE_XOR2, "xor2"}, {GATE_XNOR2, "xnor2"}, {GATE_LT2, "lt2"}, {GATE_GT2, "gt2"}, {GATE_LE2, "le2"}, {GATE_GE2, "ge2"}, {GATE_AND3, "and3"},
             {GATE_XOR_AND, "xor_and"}, {GATE_OR_AND, "or_and"}, {GATE_ONEHOT, "onehot"}, {GATE_MAJ3, "maj3"}, {GATE_GAMBLE, "gamble"}, {GATE_DOT, "dot"}, {GATE_MUX, "mux"}, {GATE_AND_XOR, "and_xor"}})
        genlib(tb, t, n, false);
    for (auto [t, n] : std::vector<std::pair<const char*, const char*>>{{DECAY_AND3, "and3"}, {DECAY_XOR_AND, "xor_and"}, {DECAY_OR_AND, "or_and"}, {DECAY_ONEHOT, "onehot"}, {DECAY_MAJ3, "maj3"},
             {DECAY_GAMBLE, "gamble"}, {DECAY_DOT, "dot"}, {DECAY_MUX, "mux"}, {DECAY_AND_XOR, "and_xor"}})
        genlib(tb, t, n, true);
    // ports
    for (int k = 0; k < (vp::thorough ? 5000 : 900); ++k)
    {
        const auto a = rport(g, static_cast<port_position*>(nullptr));
        auto       b = rport(g, static_cast<port_position*>(nullptr));
        if (g.chance(30)) { b.x = a.x; b.y = a.y; }
        tb.ev({{"op", "poscmp"}, {"a", jp(a)}, {"b", jp(b)}, {"eq", a == b}, {"lt", a < b}, {"heq", std::hash<port_position>{}(a) == std::hash<port_position>{}(b)}});
        if (k % 10 == 0) tb.ev({{"op", "posfmt"}, {"a", jp(a)}, {"r", fmt::format("{}", a)}});
    }
    for (int i = 0; i < 9; ++i)
        for (int j = 0; j < 9; ++j)
        {
            const port_direction a{static_cast<port_direction::cardinal>(i), true, false}, b{static_cast<port_direction::cardinal>(j), false, true};
            tb.ev({{"op", "dircmp"}, {"a", i}, {"b", j}, {"eq", a == b}, {"lt", a < b}, {"heq", std::hash<port_direction>{}(a) == std::hash<port_direction>{}(b)}});
            if (j == 0) tb.ev({{"op", "dirfmt"}, {"a", i}, {"r", fmt::format("{}", a)}});
        }
    tb.flush();
    for (int k = 0; k < (vp::thorough ? 800 : 100); ++k)
    {
        port_lists<port_position>(g, "pos");
        port_lists<port_direction>(g, "dir");
    }
}

void sidb(vp::Rng& g)
{
    vp::Table tb{"sidb"};
    for (int s = -128; s <= 127; ++s) tb.ev({{"op", "sign"}, {"x", s}, {"r", static_cast<int>(sign_to_charge_state(static_cast<int8_t>(s)))}});
    const std::vector<sidb_charge_state> all{sidb_charge_state::NEGATIVE, sidb_charge_state::NEUTRAL, sidb_charge_state::POSITIVE, sidb_charge_state::NONE};
    for (auto c : all) tb.ev({{"op", "state"}, {"x", static_cast<int>(c)}, {"r", charge_state_to_sign(c)}});
    for (int b : {2, 3})
    {
        J r = J::array();
        for (auto c : sidb_charge_states_for_base_number(static_cast<uint8_t>(b))) r.push_back(static_cast<int>(c));
        tb.ev({{"op", "base"}, {"b", b}, {"r", r}});
    }
    for (int k = 0; k < (vp::thorough ? 3000 : 400); ++k)
    {
        std::vector<sidb_charge_state> v(g.below(12));
        J                              x = J::array();
        for (auto& c : v) { c = g.pick(all); x.push_back(static_cast<int>(c)); }
        tb.ev({{"op", "chargestr"}, {"x", x}, {"r", charge_configuration_to_string(v)}});
    }
    const auto ow = [&](int mode) -> std::optional<std::pair<uint16_t, uint16_t>>
    {
        if (mode == 0) return std::nullopt;
        return std::make_pair(static_cast<uint16_t>(g.chance(80) ? g.below(60) : g.below(65536)), static_cast<uint16_t>(g.chance(80) ? g.below(60) : g.below(65536)));
    };
    const auto jo = [](const auto& o) { return o ? J::array({o->first, o->second}) : J::array(); };
    for (int t = 0; t <= 14; ++t)
        for (int64_t q : {-65536, -256, -128, -3, -2, -1, 0, 1, 2, 3, 128, 256, 65536})
            for (int m = 0; m < 4; ++m)
            {
                const sidb_defect d{static_cast<sidb_defect_type>(t), q, g.chance(50) ? 5.6 : 0.0, g.chance(50) ? 5.0 : 0.0};
                const auto        cow = ow(m & 1), now = ow(m & 2);
                const auto        e   = defect_extent(d, cow, now);
                tb.ev({{"op", "defect"}, {"t", t}, {"q", q}, {"charged", is_charged_defect_type(d)}, {"neutral", is_neutral_defect_type(d)}, {"pos", is_positively_charged_defect(d)},
                       {"neg", is_negatively_charged_defect(d)}, {"zero", is_neutrally_charged_defect(d)}, {"cow", jo(cow)}, {"now", jo(now)}, {"ext", J::array({e.first, e.second})}});
            }
    for (int k = 0; k < (vp::thorough ? 5000 : 600); ++k)
    {
        const auto mk = [&](J& j)
        {
            const int t = static_cast<int>(g.below(3)), q = static_cast<int>(g.in(-1, 1)), e = static_cast<int>(g.below(2)), l = static_cast<int>(g.below(2));
            j = J::array({t, q, e, l});
            return sidb_defect{static_cast<sidb_defect_type>(t), q, static_cast<double>(e) + 0.5, static_cast<double>(l) + 0.25};
        };
        J          ja, jb;
        const auto a = mk(ja), b = mk(jb);
        tb.ev({{"op", "defcmp"}, {"a", ja}, {"b", jb}, {"eq", a == b}, {"heq", std::hash<sidb_defect>{}(a) == std::hash<sidb_defect>{}(b)}});
        const int base = static_cast<int>(g.in(2, 3)), mu = static_cast<int>(g.in(-500, -1)), ep = static_cast<int>(g.in(10, 120)), lm = static_cast<int>(g.in(1, 90));
        const sidb_simulation_parameters p{static_cast<uint8_t>(base), mu / 1000.0, ep / 10.0, lm / 10.0};
        const auto r = [](double x, double f) { return static_cast<int64_t>(std::llround(x * f)); };
        tb.ev({{"op", "params"}, {"b", base}, {"base", p.base}, {"mu_in", mu}, {"mum", r(p.mu_minus, 1000)}, {"mup", r(p.mu_plus(), 1000)}, {"eps_in", ep}, {"eps", r(p.epsilon_r, 10)}, {"lam_in", lm},
               {"lam", r(p.lambda_tf, 10)}, {"keps", r(p.k() * p.epsilon_r / 1e3, 1)}, {"ke", 8987552}});
    }
}

int main(int argc, char** argv)
{
    vp::init(argc, argv);
    vp::Rng g{vp::seed};
    if (vp::is_mode("technology")) technology(g);
    if (vp::is_mode("sidb")) sidb(g);
    return vp::finish();
}
