// Stand-in for mockturtle/views/names_view.hpp
#pragma once
#include "../traits.hpp"
#include <map>
#include <string>
namespace mockturtle
{
template <class Ntk>
class names_view : public Ntk
{
  public:
    using storage = typename Ntk::storage;
    using node    = typename Ntk::node;
    using signal  = typename Ntk::signal;
    names_view(Ntk const& ntk = Ntk(), std::string name = "") : Ntk(ntk), _network_name{name} {}
    names_view(names_view<Ntk> const& o) : Ntk(o), _network_name(o._network_name), _signal_names(o._signal_names), _output_names(o._output_names) {}
    names_view& operator=(names_view<Ntk> const& o)
    {
        static_cast<Ntk&>(*this) = o;
        _network_name            = o._network_name;
        _signal_names            = o._signal_names;
        _output_names            = o._output_names;
        return *this;
    }
    signal create_pi(std::string const& name = {})
    {
        const auto s = Ntk::create_pi();
        if (!name.empty()) set_name(s, name);
        return s;
    }
    void create_po(signal const& s, std::string const& name = {})
    {
        const auto i = Ntk::num_pos();
        Ntk::create_po(s);
        if (!name.empty()) set_output_name(i, name);
    }
    template <typename S>
    void        set_network_name(S name) noexcept { _network_name = name; }
    std::string get_network_name() const noexcept { return _network_name; }
    bool        has_name(signal const& s) const { return _signal_names.find(s) != _signal_names.end(); }
    void        set_name(signal const& s, std::string const& name) { _signal_names[s] = name; }
    std::string get_name(signal const& s) const { return _signal_names.at(s); }
    bool        has_output_name(uint32_t i) const { return _output_names.find(i) != _output_names.end(); }
    void        set_output_name(uint32_t i, std::string const& name) { _output_names[i] = name; }
    std::string get_output_name(uint32_t i) const { return _output_names.at(i); }

  private:
    std::string                     _network_name;
    std::map<signal, std::string>   _signal_names;
    std::map<uint32_t, std::string> _output_names;
};
template <class T>
names_view(T const&) -> names_view<T>;
template <class T>
names_view(T const&, std::string) -> names_view<T>;
}  // namespace mockturtle
