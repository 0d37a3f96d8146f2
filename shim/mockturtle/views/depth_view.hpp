// Stand-in for mockturtle/views/depth_view.hpp
#pragma once
#include "../traits.hpp"
#include "../utils/cost_functions.hpp"
#include <algorithm>
#include <map>
#include <vector>
namespace mockturtle
{
struct depth_view_params
{
    bool count_complements{false}, pi_cost{false};
};
template <class Ntk, class NodeCostFn = unit_cost<Ntk>, bool has_depth_interface = has_depth_v<Ntk> && has_level_v<Ntk> && has_update_levels_v<Ntk>>
class depth_view;
template <class Ntk, class F>
class depth_view<Ntk, F, true> : public Ntk
{
  public:
    depth_view(Ntk const& ntk, depth_view_params const& = {}) : Ntk(ntk) {}
};
template <class Ntk, class F>
class depth_view<Ntk, F, false> : public Ntk
{
  public:
    using storage = typename Ntk::storage;
    using node    = typename Ntk::node;
    using signal  = typename Ntk::signal;
    explicit depth_view(F const& = {}, depth_view_params const& p = {}) : Ntk(), ps(p) {}
    explicit depth_view(Ntk const& ntk, F const& = {}, depth_view_params const& p = {}) : Ntk(ntk), ps(p) { update_levels(); }
    uint32_t depth() const { return dep; }
    uint32_t level(node const& n) const { return lv.at(n); }
    bool     is_on_critical_path(node const& n) const { return crit.count(n) && crit.at(n); }
    void     set_level(node const& n, uint32_t l) { lv[n] = l; }
    void     update_levels()
    {
        lv.clear();
        crit.clear();
        dep = 0;
        this->foreach_node([this](auto const& n) { rec(n); });
        this->foreach_po([this](auto const& f) { dep = std::max(dep, lv[this->get_node(f)] + (ps.count_complements && this->is_complemented(f) ? 1u : 0u)); });
        this->foreach_po([this](auto const& f) { if (lv[this->get_node(f)] == dep) mark(this->get_node(f)); });
    }

  private:
    uint32_t rec(node const& n)
    {
        if (auto it = lv.find(n); it != lv.end()) return it->second;
        if (this->is_constant(n) || this->is_ci(n)) return lv[n] = 0;
        uint32_t l = 0;
        this->foreach_fanin(n, [&](auto const& f) { l = std::max(l, rec(this->get_node(f)) + (ps.count_complements && this->is_complemented(f) ? 1u : 0u)); });
        return lv[n] = l + F{}(*this, n);
    }
    void mark(node const& n)
    {
        crit[n] = true;
        if (this->is_constant(n)) return;
        this->foreach_fanin(n, [&](auto const& f) { const auto c = this->get_node(f); if (lv[c] + 1 == lv[n] && !crit[c]) mark(c); });
    }
    depth_view_params        ps;
    std::map<node, uint32_t> lv;
    std::map<node, bool>     crit;
    uint32_t                 dep = 0;
};
template <class T>
depth_view(T const&) -> depth_view<T>;
}  // namespace mockturtle
