// Stand-in: blif files are not supported by it
#pragma once
#include <lorina/lorina.hpp>
namespace mockturtle
{
template <typename Ntk>
class blif_reader : public lorina::blif_reader
{
  public:
    explicit blif_reader(Ntk&) {}
};
}  // namespace mockturtle
