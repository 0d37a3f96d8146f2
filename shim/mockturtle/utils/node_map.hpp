// Stand-in for mockturtle/utils/node_map.hpp
#pragma once
#include "../traits.hpp"
#include <cassert>
#include <memory>
#include <unordered_map>
#include <vector>
namespace mockturtle
{
template <class T, class Ntk, class Impl = std::vector<T>>
class node_map
{
  public:
    using node      = typename Ntk::node;
    using signal    = typename Ntk::signal;
    static constexpr bool vec = std::is_same_v<Impl, std::vector<T>>;
    using reference       = std::conditional_t<vec, typename std::vector<T>::reference, T&>;
    using const_reference = std::conditional_t<vec, typename std::vector<T>::const_reference, const T&>;
    explicit node_map(Ntk const& ntk) : ntk(&ntk), data(std::make_shared<Impl>())
    {
        if constexpr (vec) data->resize(ntk.size());
    }
    node_map(Ntk const& ntk, T const& init) : ntk(&ntk), data(std::make_shared<Impl>())
    {
        if constexpr (vec) data->resize(ntk.size(), init);
    }
    auto size() const { return data->size(); }
    bool has(node const& n) const
    {
        if constexpr (vec) return ntk->node_to_index(n) < data->size();
        else return data->find(ntk->node_to_index(n)) != data->end();
    }
    template <typename _Ntk = Ntk, typename = std::enable_if_t<!std::is_same_v<typename _Ntk::signal, typename _Ntk::node>>>
    bool has(signal const& f) const { return has(ntk->get_node(f)); }
    reference operator[](node const& n) { return at(ntk->node_to_index(n)); }
    const_reference operator[](node const& n) const { return cat(ntk->node_to_index(n)); }
    template <typename _Ntk = Ntk, typename = std::enable_if_t<!std::is_same_v<typename _Ntk::signal, typename _Ntk::node>>>
    reference operator[](signal const& f) { return at(ntk->node_to_index(ntk->get_node(f))); }
    template <typename _Ntk = Ntk, typename = std::enable_if_t<!std::is_same_v<typename _Ntk::signal, typename _Ntk::node>>>
    const_reference operator[](signal const& f) const { return cat(ntk->node_to_index(ntk->get_node(f))); }
    void reset(T const& init = {})
    {
        data->clear();
        if constexpr (vec) data->resize(ntk->size(), init);
    }
    void resize(T const& init = {})
    {
        if constexpr (vec) if (ntk->size() > data->size()) data->resize(ntk->size(), init);
    }

  private:
    reference at(uint64_t i)
    {
        if constexpr (vec)
        {
            assert(i < data->size() && "index out of bounds");
            return (*data)[i];
        }
        else return (*data)[i];
    }
    const_reference cat(uint64_t i) const
    {
        if constexpr (vec)
        {
            assert(i < data->size() && "index out of bounds");
            return (*data)[i];
        }
        else return data->at(i);
    }
    Ntk const*            ntk;
    std::shared_ptr<Impl> data;
};
}  // namespace mockturtle
