// Stand-in for mockturtle/utils/progress_bar.hpp: prints nothing
#pragma once
#include <cstdint>
#include <iostream>
#include <string>
namespace mockturtle
{
class progress_bar
{
  public:
    progress_bar(std::string const&, bool = true, std::ostream& = std::cout) {}
    progress_bar(uint32_t, std::string const&, bool = true, std::ostream& = std::cout) {}
    template <typename... A>
    void operator()(uint32_t, A...) {}
    void done() {}
};
}  // namespace mockturtle
