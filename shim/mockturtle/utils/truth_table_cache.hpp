// Stand-in for mockturtle/utils/truth_table_cache.hpp
#pragma once
#include <kitty/kitty.hpp>
#include <unordered_map>
#include <vector>
namespace mockturtle
{
template <typename TT>
class truth_table_cache
{
  public:
    explicit truth_table_cache(uint32_t = 1000u) {}
    uint32_t insert(TT tt)
    {
        uint32_t is_compl = 0;
        if (kitty::get_bit(tt, 0)) { is_compl = 1; tt = ~tt; }
        const auto it = _indexes.find(tt);
        if (it != _indexes.end()) return static_cast<uint32_t>(2 * it->second + is_compl);
        const auto index = static_cast<uint32_t>(_data.size());
        _data.push_back(tt);
        _indexes[tt] = index;
        return 2 * index + is_compl;
    }
    TT operator[](uint32_t index) const
    {
        auto& e = _data.at(index >> 1);
        return (index & 1) ? ~e : e;
    }
    auto size() const { return _data.size(); }
    void resize(uint32_t) {}

  private:
    std::unordered_map<TT, uint32_t> _indexes;
    std::vector<TT>                  _data;
};
}  // namespace mockturtle
