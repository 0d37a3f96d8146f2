// Stand-in for mockturtle/algorithms/equivalence_checking.hpp: decides the miter exhaustively
#pragma once
#include "simulation.hpp"
#include "../utils/stopwatch.hpp"
#include <optional>
#include <vector>
namespace mockturtle
{
struct equivalence_checking_params
{
    uint32_t conflict_limit{0u};
    bool     functional_reduction{true}, verbose{false};
};
struct equivalence_checking_stats
{
    stopwatch<>::duration time_total{0};
    std::vector<bool>     counter_example;
};
template <class Ntk>
std::optional<bool> equivalence_checking(Ntk const& miter, equivalence_checking_params const& = {}, equivalence_checking_stats* st = nullptr)
{
    const auto tts = vp_simulate(miter);
    for (uint64_t i = 0; i < tts[0].num_bits(); ++i)
        if (kitty::get_bit(tts[0], i))
        {
            if (st)
            {
                st->counter_example.clear();
                for (uint32_t k = 0; k < miter.num_pis(); ++k) st->counter_example.push_back((i >> k) & 1);
            }
            return false;
        }
    return true;
}
}  // namespace mockturtle
