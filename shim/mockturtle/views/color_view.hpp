// Stand-in for mockturtle/views/color_view.hpp
#pragma once
#include "../traits.hpp"
#include <vector>
namespace mockturtle
{
template <typename Ntk>
class out_of_place_color_view : public Ntk
{
  public:
    using storage = typename Ntk::storage;
    using node    = typename Ntk::node;
    using signal  = typename Ntk::signal;
    explicit out_of_place_color_view(Ntk const& ntk) : Ntk(ntk), values(ntk.size()) {}
    uint32_t new_color() const { return ++value; }
    uint32_t current_color() const { return value; }
    void     clear_colors(uint32_t c = 0) const { value = c; for (auto& v : values) v = c; }
    auto     color(node const& n) const { return values[this->node_to_index(n)]; }
    template <typename N = Ntk, typename = std::enable_if_t<!std::is_same_v<typename N::signal, typename N::node>>>
    auto color(signal const& s) const { return values[this->node_to_index(this->get_node(s))]; }
    void paint(node const& n) const { values[this->node_to_index(n)] = value; }
    void paint(node const& n, uint32_t c) const { values[this->node_to_index(n)] = c; }
    void paint(node const& n, node const& other) const { values[this->node_to_index(n)] = values[this->node_to_index(other)]; }
    template <typename Pred>
    bool eval_color(node const& a, node const& b, Pred&& p) const { return p(color(a), color(b)); }
    template <typename Pred>
    bool eval_color(node const& n, Pred&& p) const { return p(color(n)); }
    template <typename Pred>
    bool eval_fanins_color(node const& n, Pred&& p) const
    {
        bool r = true;
        this->foreach_fanin(n, [&](auto const& f) { if (r && !p(color(this->get_node(f)))) r = false; });
        return r;
    }

  protected:
    mutable std::vector<uint32_t> values;
    mutable uint32_t              value{0};
};
}  // namespace mockturtle
