// Stand-in for mockturtle/networks/detail/foreach.hpp
#pragma once
#include <cstdint>
#include <iterator>
#include <type_traits>
#include <utility>
namespace mockturtle
{
template <typename IntType>
struct range
{
    struct iterator
    {
        using value_type        = IntType;
        using difference_type   = std::ptrdiff_t;
        using pointer           = const IntType*;
        using reference         = const IntType&;
        using iterator_category = std::forward_iterator_tag;
        iterator() = default;
        explicit iterator(IntType v) : v{v} {}
        reference operator*() const { return v; }
        iterator& operator++() { ++v; return *this; }
        iterator  operator++(int) { auto c = *this; ++v; return c; }
        bool      operator==(const iterator& o) const { return v == o.v; }
        bool      operator!=(const iterator& o) const { return v != o.v; }
        // the value is returned by copy through a proxy-free reference to a member of this iterator
        IntType v{};
    };
    using iterator_type = iterator;
    range(IntType b, IntType e) : b{b}, e{e} {}
    explicit range(IntType e) : b{}, e{e} {}
    iterator begin() const { return iterator{b}; }
    iterator end() const { return iterator{e}; }
    IntType  b, e;
};
namespace detail
{
template <class Fn, class ElementType, class ReturnType>
inline constexpr bool is_callable_with_index_v = std::is_invocable_r_v<ReturnType, Fn, ElementType, uint32_t>;
template <class Fn, class ElementType, class ReturnType>
struct callable_without
{
    static constexpr bool value = []
    {
        if constexpr (std::is_invocable_v<Fn, ElementType>)
            return std::is_same_v<std::invoke_result_t<Fn, ElementType>, ReturnType>;
        else
            return false;
    }();
};
template <class Fn, class ElementType, class ReturnType>
inline constexpr bool is_callable_without_index_v = callable_without<Fn, ElementType, ReturnType>::value;

template <class Iterator, class ElementType, class Pred, class Transform, class Fn>
Iterator vp_foreach(Iterator begin, Iterator end, Pred&& pred, Transform&& tr, Fn&& fn, uint32_t off)
{
    constexpr bool wo = std::is_invocable_v<Fn, ElementType>;
    static_assert(wo || std::is_invocable_v<Fn, ElementType, uint32_t>);
    uint32_t index = off;
    while (begin != end)
    {
        decltype(auto) e = *begin;
        if (!pred(e)) { ++begin; continue; }
        if constexpr (wo)
        {
            using R = std::invoke_result_t<Fn, ElementType>;
            if constexpr (std::is_same_v<R, bool>) { if (!fn(tr(e))) return begin; }
            else fn(tr(e));
        }
        else
        {
            using R = std::invoke_result_t<Fn, ElementType, uint32_t>;
            if constexpr (std::is_same_v<R, bool>) { if (!fn(tr(e), index)) return begin; }
            else fn(tr(e), index);
        }
        ++index;
        ++begin;
    }
    return begin;
}
struct vp_yes { template <typename T> bool operator()(const T&) const { return true; } };
struct vp_id { template <typename T> T& operator()(T& t) const { return t; } template <typename T> const T& operator()(const T& t) const { return t; } };
template <class Iterator, class ElementType = typename std::iterator_traits<Iterator>::value_type, class Fn>
Iterator foreach_element(Iterator b, Iterator e, Fn&& fn, uint32_t off = 0) { return vp_foreach<Iterator, ElementType>(b, e, vp_yes{}, vp_id{}, fn, off); }
template <class Iterator, class ElementType = typename std::iterator_traits<Iterator>::value_type, class Pred, class Fn>
Iterator foreach_element_if(Iterator b, Iterator e, Pred&& p, Fn&& fn, uint32_t off = 0) { return vp_foreach<Iterator, ElementType>(b, e, p, vp_id{}, fn, off); }
template <class Iterator, class ElementType, class Transform, class Fn>
Iterator foreach_element_transform(Iterator b, Iterator e, Transform&& t, Fn&& fn, uint32_t off = 0) { return vp_foreach<Iterator, ElementType>(b, e, vp_yes{}, t, fn, off); }
}  // namespace detail
}  // namespace mockturtle
