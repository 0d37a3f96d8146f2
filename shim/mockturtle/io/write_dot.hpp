// Stand-in for mockturtle/io/write_dot.hpp
#pragma once
#include "../traits.hpp"
#include <cstdint>
#include <fstream>
#include <string>
#include <vector>
namespace mockturtle
{
template <class Ntk>
class default_dot_drawer
{
  public:
    virtual ~default_dot_drawer() = default;
    virtual std::string node_label(Ntk const& ntk, node<Ntk> const& n) const { return std::to_string(ntk.node_to_index(n)); }
    virtual std::string node_shape(Ntk const& ntk, node<Ntk> const& n) const { return ntk.is_constant(n) ? "box" : ntk.is_ci(n) ? "house" : "ellipse"; }
    virtual uint32_t    node_level(Ntk const&, node<Ntk> const&) const { return 0; }
    virtual std::string po_shape(Ntk const&, uint32_t) const { return "invhouse"; }
    virtual std::string node_fillcolor(Ntk const& ntk, node<Ntk> const& n) const { return ntk.is_constant(n) || ntk.is_ci(n) ? "snow2" : "white"; }
    virtual std::string po_fillcolor(Ntk const&, uint32_t) const { return "snow2"; }
    virtual bool        draw_signal(Ntk const&, node<Ntk> const&, signal<Ntk> const&) const { return true; }
    virtual std::string signal_style(Ntk const& ntk, signal<Ntk> const& f) const { return ntk.is_complemented(f) ? "dashed" : "solid"; }
};
template <class Ntk>
class gate_dot_drawer : public default_dot_drawer<Ntk>
{
  public:
    std::string node_label(Ntk const& ntk, node<Ntk> const& n) const override
    {
        if constexpr (has_is_and_v<Ntk>) if (ntk.is_and(n)) return "AND";
        if constexpr (has_is_or_v<Ntk>) if (ntk.is_or(n)) return "OR";
        if constexpr (has_is_xor_v<Ntk>) if (ntk.is_xor(n)) return "XOR";
        if constexpr (has_is_maj_v<Ntk>) if (ntk.is_maj(n)) return "MAJ";
        return default_dot_drawer<Ntk>::node_label(ntk, n);
    }
    std::string node_fillcolor(Ntk const& ntk, node<Ntk> const& n) const override { return default_dot_drawer<Ntk>::node_fillcolor(ntk, n); }
};
template <class Ntk, class Drawer = default_dot_drawer<Ntk>>
void write_dot(Ntk const& ntk, std::ostream& os, Drawer const& d = {})
{
    os << "digraph {\nrankdir=BT;\n";
    ntk.foreach_node([&](auto const& n) {
        os << ntk.node_to_index(n) << " [label=\"" << d.node_label(ntk, n) << "\",shape=" << d.node_shape(ntk, n) << "]\n";
        if (!ntk.is_constant(n) && !ntk.is_ci(n))
            ntk.foreach_fanin(n, [&](auto const& f) {
                if (d.draw_signal(ntk, n, f)) os << ntk.node_to_index(ntk.get_node(f)) << " -> " << ntk.node_to_index(n) << " [style=" << d.signal_style(ntk, f) << "]\n";
            });
    });
    os << "}\n";
}
template <class Ntk, class Drawer = default_dot_drawer<Ntk>>
void write_dot(Ntk const& ntk, std::string const& fn, Drawer const& d = {}) { std::ofstream os(fn); write_dot(ntk, os, d); }
}  // namespace mockturtle
