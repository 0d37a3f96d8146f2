// Stand-in for mockturtle/algorithms/miter.hpp
#pragma once
#include "cleanup.hpp"
#include <optional>
namespace mockturtle
{
template <class NtkDest, class NtkA, class NtkB>
std::optional<NtkDest> miter(NtkA const& a, NtkB const& b)
{
    if (a.num_pis() != b.num_pis() || a.num_pos() != b.num_pos()) return std::nullopt;
    NtkDest                      dest;
    std::vector<signal<NtkDest>> pis;
    for (uint32_t i = 0; i < a.num_pis(); ++i) pis.push_back(dest.create_pi());
    const auto pa = cleanup_dangling(a, dest, pis.begin(), pis.end());
    const auto pb = cleanup_dangling(b, dest, pis.begin(), pis.end());
    std::vector<signal<NtkDest>> xs;
    for (std::size_t i = 0; i < pa.size(); ++i) xs.push_back(dest.create_xor(pa[i], pb[i]));
    dest.create_po(dest.create_nary_or(xs));
    return dest;
}
}  // namespace mockturtle
