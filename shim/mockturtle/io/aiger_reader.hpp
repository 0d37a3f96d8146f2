// Stand-in: aiger files are not supported by it
#pragma once
#include <lorina/lorina.hpp>
namespace mockturtle
{
template <typename Ntk>
class aiger_reader : public lorina::aiger_reader
{
  public:
    explicit aiger_reader(Ntk&) {}
};
}  // namespace mockturtle
