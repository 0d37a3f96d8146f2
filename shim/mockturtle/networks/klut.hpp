// Stand-in for mockturtle/networks/klut.hpp
#pragma once
#include "../traits.hpp"
#include "../utils/algorithm.hpp"
#include "../utils/truth_table_cache.hpp"
#include "detail/foreach.hpp"
#include "events.hpp"
#include "storage.hpp"
#include <kitty/kitty.hpp>
#include <algorithm>
#include <memory>
#include <vector>
namespace mockturtle
{
struct klut_storage_data
{
    truth_table_cache<kitty::dynamic_truth_table> cache;
};
struct klut_storage_node : mixed_fanin_node<2>
{
    bool operator==(klut_storage_node const& o) const { return data[1].h1 == o.data[1].h1 && children == o.children; }
};
using klut_storage = storage<klut_storage_node, klut_storage_data>;

class klut_network
{
  public:
    static constexpr auto min_fanin_size = 1;
    static constexpr auto max_fanin_size = 32;
    using base_type = klut_network;
    using storage   = std::shared_ptr<klut_storage>;
    using node      = uint64_t;
    using signal    = uint64_t;

    klut_network() : _storage(std::make_shared<klut_storage>()), _events(std::make_shared<network_events<base_type>>()) { _init(); }
    klut_network(std::shared_ptr<klut_storage> s) : _storage(s), _events(std::make_shared<network_events<base_type>>()) { _init(); }
    klut_network clone() const { return {std::make_shared<klut_storage>(*_storage)}; }

  protected:
    void _init()
    {
        if (_storage->nodes.size() > 1) return;
        _storage->nodes.emplace_back();
        auto ins = [this](uint32_t nv, uint64_t w)
        {
            kitty::dynamic_truth_table t(nv);
            kitty::create_from_words(t, &w, &w + 1);
            return _storage->data.cache.insert(t);
        };
        ins(0, 0);
        ins(1, 0x1);
        ins(2, 0x8);
        ins(2, 0xe);
        ins(2, 0x2);
        ins(2, 0xb);
        ins(2, 0x6);
        ins(3, 0xe8);
        ins(3, 0xd8);
        ins(3, 0x96);
        _storage->nodes[0].data[1].h1 = 0;
        _storage->nodes[1].data[1].h1 = 1;
    }

  public:
    signal get_constant(bool v = false) const { return v ? 1 : 0; }
    signal create_pi()
    {
        const auto i = _storage->nodes.size();
        _storage->nodes.emplace_back();
        _storage->inputs.emplace_back(i);
        _storage->nodes[i].data[1].h1 = 2;
        return i;
    }
    uint32_t create_po(signal const& f)
    {
        _storage->nodes[f].data[0].h1++;
        const auto i = static_cast<uint32_t>(_storage->outputs.size());
        _storage->outputs.emplace_back(f);
        return i;
    }
    bool is_combinational() const { return true; }
    bool is_constant(node const& n) const { return n <= 1; }
    bool constant_value(node const& n) const { return n == 1; }
    bool is_ci(node const& n) const { return std::find(_storage->inputs.begin(), _storage->inputs.end(), n) != _storage->inputs.end(); }
    bool is_pi(node const& n) const { return is_ci(n); }

    signal create_buf(signal const& a) { return a; }
    signal create_not(signal const& a) { return _create_node({a}, 3); }
    signal create_and(signal a, signal b) { return _create_node({a, b}, 4); }
    signal create_nand(signal a, signal b) { return _create_node({a, b}, 5); }
    signal create_or(signal a, signal b) { return _create_node({a, b}, 6); }
    signal create_nor(signal a, signal b) { return _create_node({a, b}, 7); }
    signal create_lt(signal a, signal b) { return _create_node({a, b}, 8); }
    signal create_ge(signal a, signal b) { return _create_node({a, b}, 9); }
    signal create_gt(signal a, signal b) { return _create_node({a, b}, 10); }
    signal create_le(signal a, signal b) { return _create_node({a, b}, 11); }
    signal create_xor(signal a, signal b) { return _create_node({a, b}, 12); }
    signal create_xnor(signal a, signal b) { return _create_node({a, b}, 13); }
    signal create_maj(signal a, signal b, signal c) { return _create_node({a, b, c}, 14); }
    signal create_ite(signal a, signal b, signal c) { return _create_node({a, b, c}, 16); }
    signal create_xor3(signal a, signal b, signal c) { return _create_node({a, b, c}, 18); }
    signal create_nary_and(std::vector<signal> const& fs)
    {
        return tree_reduce(fs.begin(), fs.end(), get_constant(true), [this](auto const& a, auto const& b) { return create_and(a, b); });
    }
    signal create_nary_or(std::vector<signal> const& fs)
    {
        return tree_reduce(fs.begin(), fs.end(), get_constant(false), [this](auto const& a, auto const& b) { return create_or(a, b); });
    }
    signal create_nary_xor(std::vector<signal> const& fs)
    {
        return tree_reduce(fs.begin(), fs.end(), get_constant(false), [this](auto const& a, auto const& b) { return create_xor(a, b); });
    }
    signal _create_node(std::vector<signal> const& children, uint32_t literal)
    {
        klut_storage_node nd;
        for (auto c : children) nd.children.emplace_back(c);
        nd.data[1].h1 = literal;
        for (std::size_t i = 2; i < _storage->nodes.size(); ++i)
            if (!is_ci(i) && _storage->nodes[i] == nd) return i;
        const auto idx = _storage->nodes.size();
        _storage->nodes.push_back(nd);
        for (auto c : children) _storage->nodes[c].data[0].h1++;
        set_value(idx, 0);
        for (auto const& fn : _events->on_add) (*fn)(idx);
        return idx;
    }
    signal create_node(std::vector<signal> const& children, kitty::dynamic_truth_table const& f)
    {
        if (children.empty()) return get_constant(!kitty::is_const0(f));
        return _create_node(children, _storage->data.cache.insert(f));
    }
    signal clone_node(klut_network const& other, node const& source, std::vector<signal> const& children)
    {
        return create_node(children, other._storage->data.cache[other._storage->nodes[source].data[1].h1]);
    }
    void substitute_node(node const& o, signal const& nw)
    {
        for (std::size_t i = 2; i < _storage->nodes.size(); ++i)
            for (auto& c : _storage->nodes[i].children)
                if (c.index == o && i != nw)
                {
                    c.index = nw;
                    _storage->nodes[nw].data[0].h1++;
                }
        for (auto& p : _storage->outputs)
            if (p.index == o)
            {
                p.index = nw;
                _storage->nodes[nw].data[0].h1++;
            }
        _storage->nodes[o].data[0].h1 = 0;
    }
    auto     size() const { return static_cast<uint32_t>(_storage->nodes.size()); }
    auto     num_cis() const { return static_cast<uint32_t>(_storage->inputs.size()); }
    auto     num_cos() const { return static_cast<uint32_t>(_storage->outputs.size()); }
    auto     num_pis() const { return static_cast<uint32_t>(_storage->inputs.size()); }
    auto     num_pos() const { return static_cast<uint32_t>(_storage->outputs.size()); }
    auto     num_gates() const { return static_cast<uint32_t>(_storage->nodes.size() - _storage->inputs.size() - 2); }
    uint32_t fanin_size(node const& n) const { return static_cast<uint32_t>(_storage->nodes[n].children.size()); }
    uint32_t fanout_size(node const& n) const { return _storage->nodes[n].data[0].h1; }
    bool     is_function(node const& n) const { return n > 1 && !is_ci(n); }
    kitty::dynamic_truth_table node_function(node const& n) const { return _storage->data.cache[_storage->nodes[n].data[1].h1]; }
    node     get_node(signal const& f) const { return f; }
    signal   make_signal(node const& n) const { return n; }
    bool     is_complemented(signal const&) const { return false; }
    uint32_t node_to_index(node const& n) const { return static_cast<uint32_t>(n); }
    node     index_to_node(uint32_t i) const { return i; }
    node     ci_at(uint32_t i) const { return _storage->inputs.at(i); }
    signal   co_at(uint32_t i) const { return _storage->outputs.at(i).index; }
    node     pi_at(uint32_t i) const { return _storage->inputs.at(i); }
    signal   po_at(uint32_t i) const { return _storage->outputs.at(i).index; }
    uint32_t ci_index(node const& n) const { return std::find(_storage->inputs.begin(), _storage->inputs.end(), n) - _storage->inputs.begin(); }
    uint32_t pi_index(node const& n) const { return ci_index(n); }
    uint32_t po_index(signal const& s) const
    {
        for (uint32_t i = 0; i < _storage->outputs.size(); ++i)
            if (_storage->outputs[i].index == s) return i;
        return -1;
    }
    template <typename Fn>
    void foreach_node(Fn&& fn) const
    {
        range<uint64_t> r(_storage->nodes.size());
        detail::foreach_element(r.begin(), r.end(), fn);
    }
    template <typename Fn>
    void foreach_ci(Fn&& fn) const { detail::foreach_element(_storage->inputs.begin(), _storage->inputs.end(), fn); }
    template <typename Fn>
    void foreach_pi(Fn&& fn) const { detail::foreach_element(_storage->inputs.begin(), _storage->inputs.end(), fn); }
    template <typename Fn>
    void foreach_co(Fn&& fn) const
    {
        using It = decltype(_storage->outputs.begin());
        detail::foreach_element_transform<It, uint64_t>(_storage->outputs.begin(), _storage->outputs.end(), [](auto const& o) { return o.index; }, fn);
    }
    template <typename Fn>
    void foreach_po(Fn&& fn) const { foreach_co(fn); }
    template <typename Fn>
    void foreach_gate(Fn&& fn) const
    {
        range<uint64_t> r(2u, _storage->nodes.size());
        detail::foreach_element_if(r.begin(), r.end(), [this](auto n) { return !is_ci(n); }, fn);
    }
    template <typename Fn>
    void foreach_fanin(node const& n, Fn&& fn) const
    {
        if (n == 0 || is_ci(n)) return;
        using It = decltype(_storage->outputs.begin());
        detail::foreach_element_transform<It, uint64_t>(_storage->nodes[n].children.begin(), _storage->nodes[n].children.end(), [](auto const& f) { return f.index; }, fn);
    }
    template <typename It>
    iterates_over_t<It, bool> compute(node const& n, It b, It e) const
    {
        uint32_t index = 0, k = 0;
        while (b != e)
        {
            if (*b++) index |= 1u << k;
            ++k;
        }
        return kitty::get_bit(node_function(n), index);
    }
    template <typename It>
    iterates_over_truth_table_t<It> compute(node const& n, It b, It e) const
    {
        const auto nfanin = _storage->nodes[n].children.size();
        std::vector<typename std::iterator_traits<It>::value_type> tts(b, e);
        auto result = tts[0].construct();
        const auto gate_tt = node_function(n);
        for (uint64_t i = 0; i < result.num_bits(); ++i)
        {
            uint32_t pattern = 0;
            for (std::size_t j = 0; j < nfanin; ++j) pattern |= kitty::get_bit(tts[j], i) << j;
            if (kitty::get_bit(gate_tt, pattern)) kitty::set_bit(result, i);
        }
        return result;
    }
    void     clear_values() const { for (auto& n : _storage->nodes) n.data[0].h2 = 0; }
    uint32_t value(node const& n) const { return _storage->nodes[n].data[0].h2; }
    void     set_value(node const& n, uint32_t v) const { _storage->nodes[n].data[0].h2 = v; }
    uint32_t incr_value(node const& n) const { return static_cast<uint32_t>(_storage->nodes[n].data[0].h2++); }
    uint32_t decr_value(node const& n) const { return static_cast<uint32_t>(--_storage->nodes[n].data[0].h2); }
    void     clear_visited() const { for (auto& n : _storage->nodes) n.data[1].h2 = 0; }
    uint32_t visited(node const& n) const { return _storage->nodes[n].data[1].h2; }
    void     set_visited(node const& n, uint32_t v) const { _storage->nodes[n].data[1].h2 = v; }
    uint32_t trav_id() const { return _storage->trav_id; }
    void     incr_trav_id() const { ++_storage->trav_id; }
    auto&    events() const { return *_events; }

    std::shared_ptr<klut_storage>              _storage;
    std::shared_ptr<network_events<base_type>> _events;
};
}  // namespace mockturtle
