// Stand-in for mockturtle/io/verilog_reader.hpp
#pragma once
#include <lorina/lorina.hpp>
#include "../traits.hpp"
#include <map>
namespace mockturtle
{
template <typename Ntk>
class verilog_reader : public lorina::verilog_reader
{
  public:
    explicit verilog_reader(Ntk& ntk) : ntk(ntk) {}
    void on_module(const std::string& n) const override { if constexpr (has_set_network_name_v<Ntk>) ntk.set_network_name(n); }
    void on_input(const std::string& n) const override
    {
        const auto s = ntk.create_pi();
        m[n]         = s;
        if constexpr (has_set_name_v<Ntk>) ntk.set_name(s, n);
    }
    void on_output(const std::string& n) const override { outs.push_back(n); }
    bool on_assign(const std::string& lhs, const lorina::vp_expr& e) const override
    {
        if (!ready(e)) return false;
        m[lhs] = build(e);
        return true;
    }
    void on_end() const override
    {
        for (uint32_t i = 0; i < outs.size(); ++i)
        {
            ntk.create_po(m.at(outs[i]));
            if constexpr (has_set_output_name_v<Ntk>) ntk.set_output_name(i, outs[i]);
        }
    }

  private:
    bool ready(const lorina::vp_expr& e) const
    {
        if (e.op == 'v') return m.count(e.name) != 0;
        for (auto& c : e.ch) if (!ready(c)) return false;
        return true;
    }
    signal<Ntk> build(const lorina::vp_expr& e) const
    {
        switch (e.op)
        {
            case 'v': return m.at(e.name);
            case '0': return ntk.get_constant(false);
            case '1': return ntk.get_constant(true);
            case '~': return ntk.create_not(build(e.ch[0]));
            case '&': { auto a = build(e.ch[0]); auto b = build(e.ch[1]); return ntk.create_and(a, b); }
            case '|': { auto a = build(e.ch[0]); auto b = build(e.ch[1]); return ntk.create_or(a, b); }
            default: { auto a = build(e.ch[0]); auto b = build(e.ch[1]); return ntk.create_xor(a, b); }
        }
    }
    Ntk&                                       ntk;
    mutable std::map<std::string, signal<Ntk>> m;
    mutable std::vector<std::string>           outs;
};
}  // namespace mockturtle
