// Stand-in for mockturtle's AIG, XAG and MIG: structurally hashed networks with complemented edges.
#pragma once
#include "../traits.hpp"
#include "../utils/algorithm.hpp"
#include "detail/foreach.hpp"
#include "events.hpp"
#include "storage.hpp"
#include <kitty/kitty.hpp>
#include <algorithm>
#include <array>
#include <map>
#include <memory>
#include <vector>
namespace mockturtle
{
enum class vp_kind { aig, xag, mig };
struct vp_sig
{
    vp_sig() = default;
    vp_sig(uint64_t i, uint64_t c) : complement(c), index(i) {}
    explicit vp_sig(uint64_t d) : complement(d & 1), index(d >> 1) {}
    uint64_t complement : 1 = 0;
    uint64_t index : 63     = 0;
    uint64_t data() const { return (uint64_t(index) << 1) | complement; }
    vp_sig   operator!() const { return {index, uint64_t(complement ^ 1)}; }
    vp_sig   operator+() const { return {index, 0}; }
    vp_sig   operator-() const { return {index, 1}; }
    vp_sig   operator^(bool c) const { return {index, uint64_t(complement ^ (c ? 1 : 0))}; }
    bool     operator==(const vp_sig& o) const { return data() == o.data(); }
    bool     operator!=(const vp_sig& o) const { return data() != o.data(); }
    bool     operator<(const vp_sig& o) const { return data() < o.data(); }
};
template <vp_kind K>
class vp_strash
{
  public:
    static constexpr auto min_fanin_size = K == vp_kind::mig ? 3u : 2u;
    static constexpr auto max_fanin_size = K == vp_kind::mig ? 3u : 2u;
    struct nd
    {
        uint8_t             kind = 0;  // 0 const/pi, 1 and, 2 xor, 3 maj
        std::vector<vp_sig> ch;
        uint32_t            fo = 0, val = 0, vis = 0;
    };
    struct strg
    {
        std::vector<nd>                                   nodes = std::vector<nd>(1);
        std::vector<uint64_t>                             inputs;
        std::vector<vp_sig>                               outputs;
        std::map<std::pair<int, std::vector<vp_sig>>, uint64_t> hash;
        uint32_t                                          trav_id = 0;
    };
    using base_type = vp_strash;
    using storage   = std::shared_ptr<strg>;
    using node      = uint64_t;
    using signal    = vp_sig;
    vp_strash() : _storage(std::make_shared<strg>()), _events(std::make_shared<network_events<base_type>>()) {}
    vp_strash(storage s) : _storage(s), _events(std::make_shared<network_events<base_type>>()) {}
    vp_strash clone() const { return {std::make_shared<strg>(*_storage)}; }
    signal get_constant(bool v = false) const { return {0, v ? 1u : 0u}; }
    signal create_pi()
    {
        const auto i = _storage->nodes.size();
        _storage->nodes.emplace_back();
        _storage->inputs.push_back(i);
        return {i, 0};
    }
    uint32_t create_po(signal const& f)
    {
        _storage->nodes[f.index].fo++;
        _storage->outputs.push_back(f);
        return static_cast<uint32_t>(_storage->outputs.size() - 1);
    }
    bool is_combinational() const { return true; }
    bool is_constant(node const& n) const { return n == 0; }
    bool constant_value(node const&) const { return false; }
    bool is_ci(node const& n) const { return n > 0 && _storage->nodes[n].kind == 0; }
    bool is_pi(node const& n) const { return is_ci(n); }
    signal create_buf(signal const& a) { return a; }
    signal create_not(signal const& a) { return !a; }
    signal add(int kind, std::vector<signal> ch)
    {
        auto it = _storage->hash.find({kind, ch});
        if (it != _storage->hash.end()) return {it->second, 0};
        const auto i = _storage->nodes.size();
        nd         n;
        n.kind = static_cast<uint8_t>(kind);
        n.ch   = ch;
        _storage->nodes.push_back(n);
        for (auto& c : ch) _storage->nodes[c.index].fo++;
        _storage->hash[{kind, ch}] = i;
        for (auto const& fn : _events->on_add) (*fn)(i);
        return {i, 0};
    }
    signal create_and(signal a, signal b)
    {
        if constexpr (K == vp_kind::mig) return create_maj(get_constant(false), a, b);
        if (b < a) std::swap(a, b);
        if (a.index == b.index) return a.complement == b.complement ? a : get_constant(false);
        if (a.index == 0) return a.complement ? b : get_constant(false);
        return add(1, {a, b});
    }
    signal create_nand(signal a, signal b) { return !create_and(a, b); }
    signal create_or(signal a, signal b)
    {
        if constexpr (K == vp_kind::mig) return create_maj(get_constant(true), a, b);
        return !create_and(!a, !b);
    }
    signal create_nor(signal a, signal b) { return !create_or(a, b); }
    signal create_lt(signal a, signal b) { return create_and(!a, b); }
    signal create_le(signal a, signal b) { return !create_and(a, !b); }
    signal create_gt(signal a, signal b) { return create_and(a, !b); }
    signal create_ge(signal a, signal b) { return !create_and(!a, b); }
    signal create_xor(signal a, signal b)
    {
        if constexpr (K == vp_kind::xag)
        {
            const bool c = a.complement ^ b.complement;
            a            = +a;
            b            = +b;
            if (b < a) std::swap(a, b);
            if (a.index == b.index) return get_constant(c);
            if (a.index == 0) return b ^ c;
            return add(2, {a, b}) ^ c;
        }
        return create_and(!create_and(a, b), !create_and(!a, !b));
    }
    signal create_xnor(signal a, signal b) { return !create_xor(a, b); }
    signal create_ite(signal c, signal t, signal e) { return create_or(create_and(c, t), create_and(!c, e)); }
    signal create_maj(signal a, signal b, signal c)
    {
        if constexpr (K == vp_kind::mig)
        {
            if (b < a) std::swap(a, b);
            if (c < b) std::swap(b, c);
            if (b < a) std::swap(a, b);
            if (a.index == b.index) return a.complement == b.complement ? a : c;
            if (b.index == c.index) return b.complement == c.complement ? b : a;
            bool cm = false;
            if (int(a.complement) + int(b.complement) + int(c.complement) >= 2)
            {
                cm = true;
                a  = !a;
                b  = !b;
                c  = !c;
            }
            return add(3, {a, b, c}) ^ cm;
        }
        return create_or(create_and(a, b), create_and(c, create_or(a, b)));
    }
    signal create_xor3(signal a, signal b, signal c) { return create_xor(create_xor(a, b), c); }
    signal create_nary_and(std::vector<signal> const& fs)
    {
        return tree_reduce(fs.begin(), fs.end(), get_constant(true), [this](auto const& a, auto const& b) { return create_and(a, b); });
    }
    signal create_nary_or(std::vector<signal> const& fs)
    {
        return tree_reduce(fs.begin(), fs.end(), get_constant(false), [this](auto const& a, auto const& b) { return create_or(a, b); });
    }
    signal create_nary_xor(std::vector<signal> const& fs)
    {
        return tree_reduce(fs.begin(), fs.end(), get_constant(false), [this](auto const& a, auto const& b) { return create_xor(a, b); });
    }
    signal clone_node(vp_strash const& other, node const& s, std::vector<signal> const& ch)
    {
        switch (other._storage->nodes[s].kind)
        {
            case 1: return create_and(ch[0], ch[1]);
            case 2: return create_xor(ch[0], ch[1]);
            default: return create_maj(ch[0], ch[1], ch[2]);
        }
    }
    auto     size() const { return static_cast<uint32_t>(_storage->nodes.size()); }
    auto     num_cis() const { return static_cast<uint32_t>(_storage->inputs.size()); }
    auto     num_cos() const { return static_cast<uint32_t>(_storage->outputs.size()); }
    auto     num_pis() const { return num_cis(); }
    auto     num_pos() const { return num_cos(); }
    auto     num_gates() const { return static_cast<uint32_t>(_storage->nodes.size() - 1 - _storage->inputs.size()); }
    uint32_t fanin_size(node const& n) const { return static_cast<uint32_t>(_storage->nodes[n].ch.size()); }
    uint32_t fanout_size(node const& n) const { return _storage->nodes[n].fo; }
    bool     is_and(node const& n) const { return _storage->nodes[n].kind == 1; }
    bool     is_or(node const&) const { return false; }
    bool     is_xor(node const& n) const { return _storage->nodes[n].kind == 2; }
    bool     is_maj(node const& n) const { return _storage->nodes[n].kind == 3; }
    bool     is_ite(node const&) const { return false; }
    bool     is_xor3(node const&) const { return false; }
    bool     is_nary_and(node const&) const { return false; }
    bool     is_nary_or(node const&) const { return false; }
    bool     is_nary_xor(node const&) const { return false; }
    bool     is_dead(node const&) const { return false; }
    bool     is_function(node const& n) const { return n > 0 && !is_ci(n); }
    kitty::dynamic_truth_table node_function(node const& n) const
    {
        const auto                 k = _storage->nodes[n].kind;
        uint64_t                   w = k == 1 ? 0x8 : k == 2 ? 0x6 : 0xe8;
        kitty::dynamic_truth_table t(k == 3 ? 3 : 2);
        t._bits[0] = w;
        return t;
    }
    node     get_node(signal const& f) const { return f.index; }
    signal   make_signal(node const& n) const { return {n, 0}; }
    bool     is_complemented(signal const& f) const { return f.complement; }
    uint32_t node_to_index(node const& n) const { return static_cast<uint32_t>(n); }
    node     index_to_node(uint32_t i) const { return i; }
    node     ci_at(uint32_t i) const { return _storage->inputs.at(i); }
    signal   co_at(uint32_t i) const { return _storage->outputs.at(i); }
    node     pi_at(uint32_t i) const { return _storage->inputs.at(i); }
    signal   po_at(uint32_t i) const { return _storage->outputs.at(i); }
    uint32_t ci_index(node const& n) const { return std::find(_storage->inputs.begin(), _storage->inputs.end(), n) - _storage->inputs.begin(); }
    uint32_t pi_index(node const& n) const { return ci_index(n); }
    template <typename Fn>
    void foreach_node(Fn&& fn) const { range<uint64_t> r(_storage->nodes.size()); detail::foreach_element(r.begin(), r.end(), fn); }
    template <typename Fn>
    void foreach_ci(Fn&& fn) const { detail::foreach_element(_storage->inputs.begin(), _storage->inputs.end(), fn); }
    template <typename Fn>
    void foreach_pi(Fn&& fn) const { foreach_ci(fn); }
    template <typename Fn>
    void foreach_co(Fn&& fn) const { detail::foreach_element(_storage->outputs.begin(), _storage->outputs.end(), fn); }
    template <typename Fn>
    void foreach_po(Fn&& fn) const { foreach_co(fn); }
    template <typename Fn>
    void foreach_gate(Fn&& fn) const
    {
        range<uint64_t> r(1u, _storage->nodes.size());
        detail::foreach_element_if(r.begin(), r.end(), [this](auto n) { return !is_ci(n); }, fn);
    }
    template <typename Fn>
    void foreach_fanin(node const& n, Fn&& fn) const
    {
        if (n == 0 || is_ci(n)) return;
        const auto& ch = _storage->nodes[n].ch;
        detail::foreach_element(ch.begin(), ch.end(), fn);
    }
    template <typename It>
    iterates_over_t<It, bool> compute(node const& n, It b, It e) const
    {
        const auto&       ch = _storage->nodes[n].ch;
        std::vector<bool> v(b, e);
        for (std::size_t i = 0; i < v.size(); ++i) v[i] = v[i] ^ bool(ch[i].complement);
        switch (_storage->nodes[n].kind)
        {
            case 1: return v[0] && v[1];
            case 2: return v[0] != v[1];
            default: return (v[0] && v[1]) || (v[2] && (v[0] || v[1]));
        }
    }
    template <typename It>
    iterates_over_truth_table_t<It> compute(node const& n, It b, It e) const
    {
        const auto& ch = _storage->nodes[n].ch;
        std::vector<typename std::iterator_traits<It>::value_type> v(b, e);
        for (std::size_t i = 0; i < v.size(); ++i) if (ch[i].complement) v[i] = ~v[i];
        switch (_storage->nodes[n].kind)
        {
            case 1: return v[0] & v[1];
            case 2: return v[0] ^ v[1];
            default: return (v[0] & v[1]) | (v[2] & (v[0] | v[1]));
        }
    }
    void     clear_values() const { for (auto& n : _storage->nodes) n.val = 0; }
    uint32_t value(node const& n) const { return _storage->nodes[n].val; }
    void     set_value(node const& n, uint32_t v) const { _storage->nodes[n].val = v; }
    uint32_t incr_value(node const& n) const { return _storage->nodes[n].val++; }
    uint32_t decr_value(node const& n) const { return --_storage->nodes[n].val; }
    void     clear_visited() const { for (auto& n : _storage->nodes) n.vis = 0; }
    uint32_t visited(node const& n) const { return _storage->nodes[n].vis; }
    void     set_visited(node const& n, uint32_t v) const { _storage->nodes[n].vis = v; }
    uint32_t trav_id() const { return _storage->trav_id; }
    void     incr_trav_id() const { ++_storage->trav_id; }
    auto&    events() const { return *_events; }

    storage                                    _storage;
    std::shared_ptr<network_events<base_type>> _events;
};
using aig_network = vp_strash<vp_kind::aig>;
using xag_network = vp_strash<vp_kind::xag>;
using mig_network = vp_strash<vp_kind::mig>;
}  // namespace mockturtle
namespace std
{
template <>
struct hash<mockturtle::vp_sig>
{
    std::size_t operator()(const mockturtle::vp_sig& s) const { return std::hash<uint64_t>{}(s.data()); }
};
}  // namespace std
