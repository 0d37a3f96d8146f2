// Conformance driver for aspect_ratio_iterator and gray_code_iterator.
#include "vp.hpp"

#include <fiction/algorithms/iter/aspect_ratio_iterator.hpp>
#include <fiction/algorithms/iter/gray_code_iterator.hpp>
#include <fiction/layouts/coordinates.hpp>

#include <memory>
#include <optional>

using namespace fiction;
using vp::J;

template <class T>
J r(const T& c) { return J::array({static_cast<int64_t>(c.x), static_cast<int64_t>(c.y)}); }

template <class T>
void aspect(vp::Rng& g, uint64_t start, int len, bool forward_only)
{
    using It = aspect_ratio_iterator<T>;
    vp::History h{"aspect", {{"start", start}}};
    std::vector<std::unique_ptr<It>> s(4);
    const auto mk = [&](int k, uint64_t n)
    {
        vp::note("aspect_ratio_iterator(" + std::to_string(n) + ")");
        s[k] = std::make_unique<It>(n);
        h.ev({{"op", "a_new"}, {"s", k}, {"n", n}, {"r", r(**s[k])}});
    };
    mk(0, start);
    mk(1, start);
    mk(2, start + static_cast<uint64_t>(g.in(0, 2)));
    mk(3, start);
    for (int i = 0; i < len; ++i)
    {
        const int a = static_cast<int>(g.below(4)), b = static_cast<int>(g.below(4));
        switch (forward_only ? 0 : g.below(9))
        {
            case 0: case 1: case 2:
            {
                const int k = forward_only ? 0 : a;
                auto&     ref = ++(*s[k]);
                h.ev({{"op", "a_inc"}, {"s", k}, {"r", r(*ref)}});
                break;
            }
            case 3:
                if (a != b)
                {
                    // d = s++
                    auto old = (*s[a])++;
                    const auto o1 = r(*old);
                    s[b]          = std::make_unique<It>(old);
                    h.ev({{"op", "a_post"}, {"s", a}, {"d", b}, {"r", r(**s[a])}, {"old", o1}, {"old2", r(**s[b])}});
                }
                break;
            case 4:
                if (a != b)
                {
                    if (g.chance(50)) s[b] = std::make_unique<It>(*s[a]);
                    else *s[b] = *s[a];
                    h.ev({{"op", "a_copy"}, {"s", a}, {"d", b}, {"r", r(**s[b])}});
                }
                break;
            case 5: h.ev({{"op", "a_get"}, {"s", a}, {"r", r(**s[a])}}); break;
            case 6: case 7:
                h.ev({{"op", "a_cmp"}, {"s", a}, {"d", b}, {"eq", *s[a] == *s[b]}, {"ne", *s[a] != *s[b]}, {"lt", *s[a] < *s[b]}, {"le", *s[a] <= *s[b]}});
                break;
            default:
            {
                const auto m = start + g.below(5) - (start > 0 ? 1 : 0);
                h.ev({{"op", "a_cmpn"}, {"s", a}, {"m", m}, {"eq", *s[a] == m}, {"ne", *s[a] != m}, {"lt", *s[a] < m}, {"le", *s[a] <= m}});
            }
        }
    }
    h.close();
}

void gray(vp::Rng& g, int len)
{
    vp::History h{"gray", J::object({{"len", len}})};
    std::vector<std::optional<gray_code_iterator>> s(4);
    const auto start = [&]() -> uint64_t
    {
        switch (g.below(4))
        {
            case 0: return g.below(5);
            case 1: return (1ull << g.below(64)) - g.below(2);
            case 2: return g.next();
            default: return g.below(1000);
        }
    };
    const auto mk = [&](int k)
    {
        const auto n = start();
        s[k].emplace(n);
        h.ev({{"op", "g_new"}, {"s", k}, {"n", vp::word(n)}, {"r", vp::word(**s[k])}});
    };
    for (int k = 0; k < 4; ++k) mk(k);
    s[1].emplace(5);
    h.ev({{"op", "g_new"}, {"s", 1}, {"n", vp::word(5)}, {"r", vp::word(**s[1])}});
    s[2].emplace(6);
    h.ev({{"op", "g_new"}, {"s", 2}, {"n", vp::word(6)}, {"r", vp::word(**s[2])}});
    for (int i = 0; i < len; ++i)
    {
        const int  a = static_cast<int>(g.below(4)), b = static_cast<int>(g.below(4));
        const int  m = static_cast<int>(g.chance(70) ? g.in(-40, 40) : g.in(-2000000000, 2000000000));
        auto&      it = *s[a];
        switch (g.below(11))
        {
            case 0: case 1:
            {
                const bool post = g.chance(50);
                const auto o    = post ? *(it++) : *(++it);
                h.ev({{"op", "g_inc"}, {"s", a}, {"r", vp::word(*it)}, {"old", vp::word(o)}, {"post", post}});
                break;
            }
            case 2:
            {
                const bool post = g.chance(50);
                const auto o    = post ? *(it--) : *(--it);
                h.ev({{"op", "g_dec"}, {"s", a}, {"r", vp::word(*it)}, {"old", vp::word(o)}, {"post", post}});
                break;
            }
            case 3:
                if (g.chance(50)) it += m, h.ev({{"op", "g_add"}, {"s", a}, {"m", m}, {"r", vp::word(*it)}});
                else it -= m, h.ev({{"op", "g_add"}, {"s", a}, {"m", -m}, {"r", vp::word(*it)}});
                break;
            case 4:
                if (g.chance(50)) h.ev({{"op", "g_plus"}, {"s", a}, {"m", m}, {"r", vp::word(*(it + m))}});
                else h.ev({{"op", "g_plus"}, {"s", a}, {"m", -m}, {"r", vp::word(*(it - m))}});
                break;
            case 5:
            {
                const auto n = start();
                it           = n;
                h.ev({{"op", "g_set"}, {"s", a}, {"n", vp::word(n)}, {"r", vp::word(*it)}});
                break;
            }
            case 6:
            {
                const auto n = g.chance(80) ? g.below(100) : start();
                h.ev({{"op", "g_at"}, {"s", a}, {"n", vp::word(n)}, {"r", vp::word(it[n])}});
                break;
            }
            case 7: h.ev({{"op", "g_diff"}, {"s", a}, {"d", b}, {"r", vp::word(static_cast<uint64_t>(it - *s[b]))}}); break;
            case 8:
                h.ev({{"op", "g_cmp"}, {"s", a}, {"d", b}, {"eq", it == *s[b]}, {"ne", it != *s[b]}, {"lt", it < *s[b]}, {"le", it <= *s[b]}});
                break;
            case 9:
            {
                uint64_t n = g.chance(50) ? g.below(12) : start();
                h.ev({{"op", "g_cmpn"}, {"s", a}, {"n", vp::word(n)}, {"eq", it == n}, {"ne", it != n}, {"lt", it < n}, {"le", it <= n}, {"gt", it > n}, {"ge", it >= n}});
                break;
            }
            default: h.ev({{"op", "g_get"}, {"s", a}, {"r", vp::word(*it)}});
        }
    }
    h.close();
}

int main(int argc, char** argv)
{
    vp::init(argc, argv);
    vp::Rng   g{vp::seed};
    const int T = vp::thorough ? 10 : 1;
    if (vp::is_mode("aspect"))
    {
        aspect<offset::ucoord_t>(g, 0, 1200 * T, true);
        aspect<cube::coord_t>(g, 1, 1200 * T, true);
        for (int k = 0; k < 12 * T; ++k) aspect<offset::ucoord_t>(g, g.below(900), 60, true);
        for (uint64_t n : {9999ull, 65535ull, 65536ull, 46339ull * 46339ull, 1048575ull, 9699690ull, 1048576ull, 123454321ull})
        {
            aspect<offset::ucoord_t>(g, n, 12, true);
        }
        for (int k = 0; k < 60 * T; ++k) aspect<offset::ucoord_t>(g, g.below(40), 120, false);
        for (int k = 0; k < 20 * T; ++k) aspect<cube::coord_t>(g, g.below(400), 120, false);
    }
    if (vp::is_mode("gray"))
        for (int k = 0; k < 60 * T; ++k) gray(g, 200);
    return vp::finish();
}
