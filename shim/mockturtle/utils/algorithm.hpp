// Stand-in for mockturtle/utils/algorithm.hpp
#pragma once
#include <algorithm>
#include <cstdint>
#include <iterator>
#include <vector>
namespace mockturtle
{
template <class Iterator, class T, class BinaryOperation>
T tree_reduce(Iterator first, Iterator last, const T& init, BinaryOperation&& op)
{
    const auto len = std::distance(first, last);
    switch (len)
    {
        case 0u: return init;
        case 1u: return *first;
        case 2u: return op(*first, *(first + 1));
        case 3u: return op(op(*first, *(first + 1)), *(first + 2));
        default:
        {
            const auto m = len / 2;
            return op(tree_reduce(first, first + m, init, op), tree_reduce(first + m, last, init, op));
        }
    }
}
}  // namespace mockturtle
#include <mockturtle/networks/detail/foreach.hpp>
