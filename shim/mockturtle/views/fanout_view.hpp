// Stand-in for mockturtle/views/fanout_view.hpp
#pragma once
#include "../networks/detail/foreach.hpp"
#include "../networks/events.hpp"
#include "../traits.hpp"
#include "../utils/node_map.hpp"
#include "immutable_view.hpp"
#include <algorithm>
#include <functional>
#include <memory>
#include <vector>
namespace mockturtle
{
struct fanout_view_params
{
    bool update_on_add{true}, update_on_modified{true}, update_on_delete{true};
};
template <typename Ntk, bool has_fanout_interface = has_foreach_fanout_v<Ntk>>
class fanout_view;
template <typename Ntk>
class fanout_view<Ntk, true> : public Ntk
{
  public:
    fanout_view(Ntk const& ntk, fanout_view_params const& = {}) : Ntk(ntk) {}
};
template <typename Ntk>
class fanout_view<Ntk, false> : public Ntk
{
  public:
    using storage = typename Ntk::storage;
    using node    = typename Ntk::node;
    using signal  = typename Ntk::signal;
    explicit fanout_view(fanout_view_params const& p = {}) : Ntk(), ps(p) { update_fanout(); reg(); }
    explicit fanout_view(Ntk const& ntk, fanout_view_params const& p = {}) : Ntk(ntk), ps(p) { update_fanout(); reg(); }
    fanout_view(fanout_view const& o) : Ntk(o), fo(o.fo), ps(o.ps) { reg(); }
    fanout_view& operator=(fanout_view const& o)
    {
        if (this == &o) return *this;
        unreg();
        Ntk::operator=(o);
        fo = o.fo;
        ps = o.ps;
        reg();
        return *this;
    }
    ~fanout_view() { unreg(); }
    template <typename Fn>
    void foreach_fanout(node const& n, Fn&& fn) const
    {
        const auto& v = fo.at(this->node_to_index(n));
        detail::foreach_element(v.begin(), v.end(), fn);
    }
    std::vector<node> fanout(node const& n) const { return fo.at(this->node_to_index(n)); }
    void update_fanout()
    {
        fo.assign(Ntk::size(), {});
        this->foreach_gate([this](auto const& n) { add(n); });
    }

  private:
    void add(node const& n)
    {
        if (fo.size() < Ntk::size()) fo.resize(Ntk::size());
        this->foreach_fanin(n, [&](auto const& f) {
            auto& v = fo[this->node_to_index(this->get_node(f))];
            if (std::find(v.begin(), v.end(), n) == v.end()) v.push_back(n); });
    }
    void reg()
    {
        if (ps.update_on_add) ev = Ntk::events().register_add_event([this](auto const& n) { add(n); });
    }
    void unreg()
    {
        if (ev) Ntk::events().release_add_event(ev);
    }
    std::vector<std::vector<node>>                                                          fo{};
    fanout_view_params                                                                      ps{};
    std::shared_ptr<std::function<typename network_events<Ntk>::add_event_type>>            ev{};
};
template <class T>
fanout_view(T const&) -> fanout_view<T>;
template <class T>
fanout_view(T const&, fanout_view_params const&) -> fanout_view<T>;
}  // namespace mockturtle
