// Stand-in for kitty (not installed here): dynamic truth tables over 64-bit words.
#pragma once
#include <algorithm>
#include <cassert>
#include <cstdint>
#include <functional>
#include <iostream>
#include <sstream>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <vector>
namespace kitty
{
struct dynamic_truth_table
{
    explicit dynamic_truth_table(uint32_t num_vars) : _bits(num_vars <= 6 ? 1u : (1u << (num_vars - 6))), _num_vars(num_vars) {}
    dynamic_truth_table() : _bits(1u), _num_vars(0) {}
    dynamic_truth_table construct() const { return dynamic_truth_table(_num_vars); }
    auto num_vars() const noexcept { return _num_vars; }
    auto num_blocks() const noexcept { return _bits.size(); }
    auto num_bits() const noexcept { return uint64_t(1) << _num_vars; }
    auto begin() noexcept { return _bits.begin(); }
    auto end() noexcept { return _bits.end(); }
    auto begin() const noexcept { return _bits.begin(); }
    auto end() const noexcept { return _bits.end(); }
    auto cbegin() const noexcept { return _bits.cbegin(); }
    auto cend() const noexcept { return _bits.cend(); }
    void mask_bits() noexcept
    {
        if (_num_vars < 6) _bits[0] &= (uint64_t(1) << (uint64_t(1) << _num_vars)) - 1;
    }
    std::vector<uint64_t> _bits;
    uint32_t              _num_vars;
};
template <typename TT>
struct is_truth_table : std::false_type {};
template <>
struct is_truth_table<dynamic_truth_table> : std::true_type {};
template <typename TT>
inline constexpr bool is_truth_table_v = is_truth_table<TT>::value;
inline bool get_bit(const dynamic_truth_table& t, uint64_t i) { return (t._bits[i >> 6] >> (i & 63)) & 1; }
inline void set_bit(dynamic_truth_table& t, uint64_t i) { t._bits[i >> 6] |= uint64_t(1) << (i & 63); }
inline void clear_bit(dynamic_truth_table& t, uint64_t i) { t._bits[i >> 6] &= ~(uint64_t(1) << (i & 63)); }
template <typename It>
void create_from_words(dynamic_truth_table& t, It b, It e)
{
    std::fill(t._bits.begin(), t._bits.end(), 0);
    std::size_t i = 0;
    while (b != e && i < t._bits.size()) t._bits[i++] = *b++;
    t.mask_bits();
}
inline void create_from_binary_string(dynamic_truth_table& t, const std::string& s)
{
    assert(s.size() == t.num_bits());
    std::fill(t._bits.begin(), t._bits.end(), 0);
    for (std::size_t i = 0; i < s.size(); ++i)
        if (s[s.size() - 1 - i] == '1') set_bit(t, i);
}
inline void create_from_hex_string(dynamic_truth_table& t, const std::string& s)
{
    std::fill(t._bits.begin(), t._bits.end(), 0);
    uint64_t pos = 0;
    for (auto it = s.rbegin(); it != s.rend(); ++it, pos += 4)
    {
        const char c = *it;
        const int  v = c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c - 'A' + 10;
        for (int j = 0; j < 4; ++j)
            if (((v >> j) & 1) && pos + j < t.num_bits()) set_bit(t, pos + j);
    }
}
inline void create_nth_var(dynamic_truth_table& t, uint32_t v, bool c = false)
{
    for (uint64_t i = 0; i < t.num_bits(); ++i)
        if ((((i >> v) & 1) != 0) != c) set_bit(t, i); else clear_bit(t, i);
}
inline void create_random(dynamic_truth_table& t, uint64_t seed = 1)
{
    for (auto& w : t._bits)
    {
        seed = seed * 6364136223846793005ull + 1442695040888963407ull;
        w    = seed ^ (seed >> 29);
    }
    t.mask_bits();
}
inline std::string to_binary(const dynamic_truth_table& t)
{
    std::string s;
    for (uint64_t i = t.num_bits(); i-- > 0;) s += get_bit(t, i) ? '1' : '0';
    return s;
}
inline std::string to_hex(const dynamic_truth_table& t)
{
    std::string    s;
    const uint64_t n = t.num_bits() <= 4 ? 1 : t.num_bits() / 4;
    for (uint64_t k = n; k-- > 0;)
    {
        int v = 0;
        for (int j = 0; j < 4; ++j)
            if (4 * k + j < t.num_bits() && get_bit(t, 4 * k + j)) v |= 1 << j;
        s += "0123456789abcdef"[v];
    }
    return s;
}
inline void print_hex(const dynamic_truth_table& t, std::ostream& os = std::cout) { os << to_hex(t); }
inline void print_binary(const dynamic_truth_table& t, std::ostream& os = std::cout) { os << to_binary(t); }
inline dynamic_truth_table operator~(const dynamic_truth_table& t)
{
    auto r = t;
    for (auto& w : r._bits) w = ~w;
    r.mask_bits();
    return r;
}
template <typename F>
dynamic_truth_table binary_operation(const dynamic_truth_table& a, const dynamic_truth_table& b, F f)
{
    auto r = a;
    for (std::size_t i = 0; i < r._bits.size(); ++i) r._bits[i] = f(a._bits[i], b._bits[i]);
    r.mask_bits();
    return r;
}
inline dynamic_truth_table operator&(const dynamic_truth_table& a, const dynamic_truth_table& b) { return binary_operation(a, b, std::bit_and<>()); }
inline dynamic_truth_table operator|(const dynamic_truth_table& a, const dynamic_truth_table& b) { return binary_operation(a, b, std::bit_or<>()); }
inline dynamic_truth_table operator^(const dynamic_truth_table& a, const dynamic_truth_table& b) { return binary_operation(a, b, std::bit_xor<>()); }
inline dynamic_truth_table unary_not(const dynamic_truth_table& a) { return ~a; }
inline bool equal(const dynamic_truth_table& a, const dynamic_truth_table& b) { return a._num_vars == b._num_vars && a._bits == b._bits; }
inline bool operator==(const dynamic_truth_table& a, const dynamic_truth_table& b) { return equal(a, b); }
inline bool operator!=(const dynamic_truth_table& a, const dynamic_truth_table& b) { return !equal(a, b); }
inline bool less_than(const dynamic_truth_table& a, const dynamic_truth_table& b)
{
    if (a._num_vars != b._num_vars) return a._num_vars < b._num_vars;
    return std::lexicographical_compare(a._bits.rbegin(), a._bits.rend(), b._bits.rbegin(), b._bits.rend());
}
inline bool operator<(const dynamic_truth_table& a, const dynamic_truth_table& b) { return less_than(a, b); }
inline bool is_const0(const dynamic_truth_table& t) { return std::all_of(t._bits.begin(), t._bits.end(), [](auto w) { return w == 0; }); }
inline uint64_t count_ones(const dynamic_truth_table& t)
{
    uint64_t n = 0;
    for (auto w : t._bits) n += __builtin_popcountll(w);
    return n;
}
template <typename TT>
struct hash
{
    std::size_t operator()(const TT& t) const
    {
        std::size_t s = t.num_vars();
        for (auto w : t._bits) s ^= w + 0x9e3779b97f4a7c15ull + (s << 6) + (s >> 2);
        return s;
    }
};
inline dynamic_truth_table ternary_majority(const dynamic_truth_table& a, const dynamic_truth_table& b, const dynamic_truth_table& c) { return (a & b) | (a & c) | (b & c); }
inline bool is_normal(const dynamic_truth_table& t) { return !get_bit(t, 0); }
}  // namespace kitty
namespace std
{
template <>
struct hash<kitty::dynamic_truth_table> : kitty::hash<kitty::dynamic_truth_table> {};
}  // namespace std
