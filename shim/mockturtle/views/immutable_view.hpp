// Stand-in for mockturtle/views/immutable_view.hpp
#pragma once
#include "../traits.hpp"
namespace mockturtle
{
template <typename Ntk>
class immutable_view : public Ntk
{
  public:
    using storage = typename Ntk::storage;
    using node    = typename Ntk::node;
    using signal  = typename Ntk::signal;
    immutable_view(Ntk const& ntk) : Ntk(ntk) {}
};
}  // namespace mockturtle
