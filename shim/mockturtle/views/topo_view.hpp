// Stand-in for mockturtle/views/topo_view.hpp
#pragma once
#include "../networks/detail/foreach.hpp"
#include "../traits.hpp"
#include "immutable_view.hpp"
#include <algorithm>
#include <cassert>
#include <optional>
#include <vector>
namespace mockturtle
{
template <class Ntk, bool sorted = is_topologically_sorted_v<Ntk>>
class topo_view;
template <typename Ntk>
class topo_view<Ntk, false> : public immutable_view<Ntk>
{
  public:
    using storage = typename Ntk::storage;
    using node    = typename Ntk::node;
    using signal  = typename Ntk::signal;
    static constexpr bool is_topologically_sorted = true;
    topo_view(Ntk const& ntk) : immutable_view<Ntk>(ntk) { update_topo(); }
    topo_view(Ntk const& ntk, signal const& s) : immutable_view<Ntk>(ntk), start(s) { update_topo(); }
    topo_view(topo_view const& o) : immutable_view<Ntk>(o), topo_order(o.topo_order), off(o.off), start(o.start) {}
    uint32_t size() const { return static_cast<uint32_t>(topo_order.size()); }
    uint32_t num_gates() const { return static_cast<uint32_t>(topo_order.size() - off); }
    uint32_t node_to_index(node const& n) const { return static_cast<uint32_t>(std::find(topo_order.begin(), topo_order.end(), n) - topo_order.begin()); }
    node     index_to_node(uint32_t i) const { return topo_order.at(i); }
    template <typename Fn>
    void foreach_node(Fn&& fn) const { detail::foreach_element(topo_order.begin(), topo_order.end(), fn); }
    template <typename Fn>
    void foreach_gate(Fn&& fn) const { detail::foreach_element(topo_order.begin() + off, topo_order.end(), fn); }
    template <typename Fn>
    void foreach_node_reverse(Fn&& fn) const { detail::foreach_element(topo_order.rbegin(), topo_order.rend(), fn); }
    template <typename Fn>
    void foreach_gate_reverse(Fn&& fn) const { detail::foreach_element(topo_order.rbegin(), topo_order.rend() - off, fn); }
    void update_topo()
    {
        this->incr_trav_id();
        this->incr_trav_id();
        topo_order.clear();
        const auto c0 = this->get_node(this->get_constant(false));
        topo_order.push_back(c0);
        this->set_visited(c0, this->trav_id());
        if (const auto c1 = this->get_node(this->get_constant(true)); this->visited(c1) != this->trav_id())
        {
            topo_order.push_back(c1);
            this->set_visited(c1, this->trav_id());
        }
        Ntk::foreach_ci(
            [this](auto n)
            {
                if (this->visited(static_cast<node>(n)) != this->trav_id())
                {
                    topo_order.push_back(static_cast<node>(n));
                    this->set_visited(static_cast<node>(n), this->trav_id());
                }
            });
        off = topo_order.size();
        if (start) rec(this->get_node(*start));
        else Ntk::foreach_co([this](auto f) { rec(this->get_node(f)); });
    }

  private:
    void rec(node const& n)
    {
        if (this->visited(n) == this->trav_id()) return;
        assert(this->visited(n) != this->trav_id() - 1 && "cyclic network");
        this->set_visited(n, this->trav_id() - 1);
        this->foreach_fanin(n, [this](auto f) { rec(this->get_node(f)); });
        this->set_visited(n, this->trav_id());
        topo_order.push_back(n);
    }
    std::vector<node>     topo_order;
    std::size_t           off = 0;
    std::optional<signal> start;
};
template <typename Ntk>
class topo_view<Ntk, true> : public Ntk
{
  public:
    topo_view(Ntk const& ntk) : Ntk(ntk) {}
};
template <class T>
topo_view(T const&) -> topo_view<T>;
template <class T>
topo_view(T const&, typename T::signal const&) -> topo_view<T>;
}  // namespace mockturtle
