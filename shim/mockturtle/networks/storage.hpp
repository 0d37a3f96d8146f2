// Stand-in for mockturtle/networks/storage.hpp
#pragma once
#include <array>
#include <cstdint>
#include <unordered_map>
#include <vector>
namespace mockturtle
{
template <int PointerFieldSize>
struct node_pointer
{
    constexpr node_pointer() : weight(0), index(0) {}
    constexpr node_pointer(uint64_t index, uint64_t weight) : weight(weight), index(index) {}
    union
    {
        struct
        {
            uint64_t weight : PointerFieldSize;
            uint64_t index : 64 - PointerFieldSize;
        };
        uint64_t data;
    };
    bool operator==(const node_pointer& o) const { return data == o.data; }
};
template <>
struct node_pointer<0>
{
    constexpr node_pointer() : index(0) {}
    constexpr node_pointer(uint64_t index) : index(index) {}
    union
    {
        uint64_t index;
        uint64_t data;
    };
    bool operator==(const node_pointer<0>& o) const { return data == o.data; }
};
union cauint64_t
{
    uint64_t n{0};
    struct
    {
        uint64_t h1 : 32;
        uint64_t h2 : 32;
    };
};
template <int Fanin, int Size = 0, int PointerFieldSize = 0>
struct regular_node
{
    using pointer_type = node_pointer<PointerFieldSize>;
    std::array<pointer_type, Fanin> children;
    std::array<cauint64_t, Size>    data;
    bool operator==(const regular_node& o) const { return children == o.children; }
};
template <int Size = 0, int PointerFieldSize = 0>
struct mixed_fanin_node
{
    using pointer_type = node_pointer<PointerFieldSize>;
    std::vector<pointer_type>    children;
    std::array<cauint64_t, Size> data;
    bool operator==(const mixed_fanin_node& o) const { return children == o.children; }
};
struct empty_storage_data {};
template <typename Node, typename StorageData = empty_storage_data>
struct storage
{
    storage()
    {
        nodes.reserve(10000u);
        nodes.emplace_back();
    }
    using node_type = Node;
    std::vector<node_type>                        nodes;
    std::vector<uint64_t>                         inputs;
    std::vector<typename node_type::pointer_type> outputs;
    uint32_t                                      trav_id = 0u;
    StorageData                                   data;
};
}  // namespace mockturtle
