// Logic networks as documents (see Verify.tla), random networks, and networks synthesized from documents.
#pragma once
#include "vp.hpp"

#include <fiction/networks/technology_network.hpp>
#include <fiction/traits.hpp>
#include <kitty/bit_operations.hpp>
#include <kitty/constructors.hpp>
#include <kitty/dynamic_truth_table.hpp>
#include <mockturtle/networks/aig.hpp>
#include <mockturtle/networks/klut.hpp>
#include <mockturtle/networks/mig.hpp>
#include <mockturtle/networks/xag.hpp>
#include <mockturtle/views/names_view.hpp>

#include <fiction/utils/name_utils.hpp>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <vector>

using tt_t = kitty::dynamic_truth_table;
using vp::J;

// {n: inputs, nd: [{f: table, ch: [[node, inverted]]}], po: [[node, inverted]]}; node 0 is the constant 0, 1..n are the
// inputs in their order; with ids, the numbers given to the network's nodes are returned
template <class Ntk>
J ndoc(const Ntk& t, std::map<uint64_t, int>* ids = nullptr)
{
    std::map<uint64_t, int> num;
    J                       nd = J::array(), po = J::array();
    int                     k = 0;
    t.foreach_pi([&](const auto& n) { num[t.node_to_index(n)] = ++k; });
    const int n_in = k;
    const std::function<int(const mockturtle::node<Ntk>&)> visit = [&](const mockturtle::node<Ntk>& n) -> int
    {
        const auto ix = t.node_to_index(n);
        if (const auto it = num.find(ix); it != num.end()) return it->second;
        J ch = J::array();
        t.foreach_fanin(n,
                        [&](const auto& f)
                        {
                            const auto c = t.get_node(f);
                            if (t.is_constant(c)) ch.push_back({0, static_cast<int>(t.is_complemented(f) != t.constant_value(c))});
                            else ch.push_back({visit(c), static_cast<int>(t.is_complemented(f))});
                        });
        J bits = J::array();
        const auto f = t.node_function(n);
        for (uint64_t i = 0; i < f.num_bits(); ++i) bits.push_back(static_cast<int>(kitty::get_bit(f, i)));
        nd.push_back({{"f", bits}, {"ch", ch}});
        return num[ix] = ++k;
    };
    t.foreach_gate([&](const auto& n) { visit(n); });
    t.foreach_po(
        [&](const auto& f)
        {
            const auto c = t.get_node(f);
            if (t.is_constant(c)) po.push_back({0, static_cast<int>(t.is_complemented(f) != t.constant_value(c))});
            else po.push_back({visit(c), static_cast<int>(t.is_complemented(f))});
        });
    if (ids) *ids = num;
    return {{"n", n_in}, {"nd", nd}, {"po", po}};
}

// a function as a network of ANDs, ORs, XORs and NOTs
template <class Ntk>
mockturtle::signal<Ntk> synth(Ntk& t, const std::vector<int>& f, const std::vector<mockturtle::signal<Ntk>>& in, size_t k, int style)
{
    if (k == 0) return t.get_constant(f[0] != 0);
    const size_t h = f.size() / 2;
    const std::vector<int> f0(f.begin(), f.begin() + static_cast<long>(h)), f1(f.begin() + static_cast<long>(h), f.end());
    if (f0 == f1) return synth(t, f0, in, k - 1, style);
    const auto x = in[k - 1];
    const bool c0 = std::equal(f0.begin() + 1, f0.end(), f0.begin()), c1 = std::equal(f1.begin() + 1, f1.end(), f1.begin());
    if (c0 && c1) return f1[0] ? x : t.create_not(x);
    if (c0 && !f0[0]) return t.create_and(x, synth(t, f1, in, k - 1, style));
    if (c1 && f1[0]) return t.create_or(x, synth(t, f0, in, k - 1, style));
    std::vector<int> inv(f0);
    for (auto& b : inv) b = 1 - b;
    if (inv == f1 && style % 2 == 0) return t.create_xor(x, synth(t, f0, in, k - 1, style));
    return t.create_or(t.create_and(x, synth(t, f1, in, k - 1, style)), t.create_and(t.create_not(x), synth(t, f0, in, k - 1, style)));
}
// the network of a document; flip: make the node's function differ (or the first output if there is no such node)
template <class Ntk>
Ntk from_ndoc(const J& d, int style = 0, int flip = -1)
{
    Ntk t{};
    std::vector<mockturtle::signal<Ntk>> s{t.get_constant(false)};
    for (int i = 0; i < d["n"].get<int>(); ++i) s.push_back(t.create_pi());
    int k = 0;
    for (const auto& n : d["nd"])
    {
        std::vector<mockturtle::signal<Ntk>> in;
        for (const auto& c : n["ch"]) in.push_back(c[1].get<int>() ? t.create_not(s[c[0].get<size_t>()]) : s[c[0].get<size_t>()]);
        std::vector<int> f = n["f"].get<std::vector<int>>();
        if (k++ == flip) f[static_cast<size_t>(style) % f.size()] ^= 1;
        s.push_back(synth(t, f, in, in.size(), style));
    }
    for (const auto& p : d["po"]) t.create_po(p[1].get<int>() ? t.create_not(s[p[0].get<size_t>()]) : s[p[0].get<size_t>()]);
    return t;
}

template <class Ntk>
struct NetGen
{
    Ntk&      t;
    vp::Rng&  r;
    std::vector<mockturtle::signal<Ntk>> s{};

    mockturtle::signal<Ntk> pick(bool constants)
    {
        if (constants && r.chance(4)) return t.get_constant(r.chance(50));
        return s.size() > 6 && r.chance(60) ? s[s.size() - 1 - r.below(5)] : r.pick(s);
    }
    // one random gate
    mockturtle::signal<Ntk> gate(bool constants)
    {
        const auto a = pick(constants), b = pick(constants), c = pick(constants);
        if constexpr (std::is_base_of_v<fiction::technology_network, Ntk>)
        {
            switch (r.below(18))
            {
                case 0: return t.create_nand(a, b);
                case 1: return t.create_nor(a, b);
                case 2: return t.create_lt(a, b);
                case 3: return t.create_ge(a, b);
                case 4: return t.create_gt(a, b);
                case 5: return t.create_le(a, b);
                case 6: return t.create_xnor(a, b);
                case 7: return majs ? t.create_maj(a, b, c) : t.create_nand(a, b);
                case 8: return three ? t.create_ite(a, b, c) : t.create_xor(a, b);
                case 9: return three ? t.create_dot(a, b, c) : t.create_and(a, b);
                case 10: return three ? word(0x80, a, b, c) : t.create_or(a, b);
                case 11: return three ? word(0x28, a, b, c) : t.create_not(a);
                case 12: return three ? word(0xa8, a, b, c) : majs ? t.create_maj(a, b, c) : t.create_and(a, b);
                case 13: return three ? word(0x16, a, b, c) : t.create_nor(a, b);
                case 14: return three ? word(0x81, a, b, c) : t.create_le(a, b);
                case 15: return three ? word(0x6a, a, b, c) : t.create_lt(a, b);
                case 16: return t.create_buf(a);
                default: return t.create_not(a);
            }
        }
        else
            switch (r.below(5))
            {
                case 0: return t.create_or(a, b);
                case 1: return t.create_xor(a, b);
                case 2: return t.create_not(a);
                case 3: return t.create_maj(a, b, c);
                default: return t.create_and(a, b);
            }
    }
    mockturtle::signal<Ntk> word(uint64_t w, const mockturtle::signal<Ntk>& a, const mockturtle::signal<Ntk>& b, const mockturtle::signal<Ntk>& c)
    {
        tt_t f{3};
        kitty::create_from_words(f, &w, &w + 1);
        return t.create_node({a, b, c}, f);
    }
    bool three = true;  // gates with three inputs other than MAJ
    bool majs  = true;
    void build(int pis, int gates, int pos, bool constants = false, bool named = false)
    {
        for (int i = 0; i < pis; ++i)
        {
            if constexpr (requires { t.create_pi(std::string{}); }) s.push_back(named ? t.create_pi("in" + std::to_string(i)) : t.create_pi());
            else s.push_back(t.create_pi());
        }
        if (s.empty()) s.push_back(t.get_constant(true));
        for (int i = 0; i < gates; ++i) s.push_back(gate(constants));
        for (int i = 0; i < pos; ++i)
        {
            const auto f = i == 0 ? s.back() : pick(constants);
            if constexpr (requires { t.create_po(f, std::string{}); }) named ? t.create_po(f, "out" + std::to_string(i)) : t.create_po(f);
            else t.create_po(f);
        }
    }
};
// the names in a network: of itself, of its inputs, its outputs, and of gates that are read
template <class Ntk>
J names_of(const Ntk& t, const std::map<uint64_t, int>& ids)
{
    J in = J::array(), out = J::array(), sig = J::array();
    if constexpr (mockturtle::has_has_name_v<Ntk>)
    {
        t.foreach_pi([&](const auto& n) { const auto s = t.make_signal(n); in.push_back(t.has_name(s) ? t.get_name(s) : ""); });
        t.foreach_po([&](const auto&, auto i) { out.push_back(t.has_output_name(static_cast<uint32_t>(i)) ? t.get_output_name(static_cast<uint32_t>(i)) : ""); });
        std::set<uint64_t> read;
        t.foreach_gate([&](const auto& n) { t.foreach_fanin(n, [&](const auto& f) { read.insert(t.node_to_index(t.get_node(f))); }); });
        t.foreach_gate([&](const auto& n) { const auto s = t.make_signal(n); if (t.has_name(s) && read.count(t.node_to_index(n))) sig.push_back({t.get_name(s), ids.at(t.node_to_index(n))}); });
    }
    return {{"net", fiction::get_name(t)}, {"in", in}, {"out", out}, {"sig", sig}};
}
