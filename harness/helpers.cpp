// Conformance driver for utils/{math,combination,array,stl,map,hash}_utils and io/csv_writer.
#include "vp.hpp"
#include <iomanip>
#include <string_view>

#include <fiction/io/csv_writer.hpp>
#include <fiction/layouts/coordinates.hpp>
#include <fiction/utils/array_utils.hpp>
#include <fiction/utils/combination_utils.hpp>
#include <fiction/utils/hash.hpp>
#include <fiction/utils/map_utils.hpp>
#include <fiction/utils/math_utils.hpp>
#include <fiction/utils/stl_utils.hpp>

#include <cmath>
#include <deque>
#include <limits>
#include <map>
#include <set>
#include <sstream>
#include <unordered_map>
#include <unordered_set>

using namespace fiction;
using vp::J;

void combin(vp::Rng& g)
{
    {
        vp::History h{"pascal", J::object({{"x", 0}})};
        for (uint64_t n = 0; n <= 70; ++n)
        {
            J v = J::array();
            for (uint64_t k = 0; k <= n + 1; ++k) v.push_back(vp::word(binomial_coefficient(n, k)));
            h.ev({{"op", "row"}, {"vals", v}});
        }
        h.close();
    }
    vp::Table      tb{"combin", 60};
    const uint64_t big = std::numeric_limits<uint64_t>::max();
    for (uint64_t n : {big, big - 1, big / 2, big / 2 + 1, big / 2 + 2, uint64_t{1} << 40, uint64_t{4294967295}, uint64_t{100000}})
    {
        for (uint64_t k : {uint64_t{0}, uint64_t{1}})
        {
            tb.ev({{"op", "binomL"}, {"r", vp::word(binomial_coefficient(n, k))}, {"want", vp::word(k == 0 ? 1 : n)}});
            tb.ev({{"op", "binomL"}, {"r", vp::word(binomial_coefficient(n, n - k))}, {"want", vp::word(k == 0 ? 1 : n)}});
        }
    }
    const size_t N = vp::thorough ? 13 : 10;
    for (size_t n = 0; n <= N; ++n)
        for (size_t k = 0; k <= n + 2; ++k)
        {
            if (binomial_coefficient(n, k) > 300 && !vp::thorough && !(n == 10 && k == 5)) continue;
            vp::note("determine_all_combinations " + std::to_string(k) + " on " + std::to_string(n));
            tb.ev({{"op", "distr"}, {"k", k}, {"n", n}, {"r", determine_all_combinations_of_distributing_k_entities_on_n_positions(k, n)}});
        }
    for (int q = 0; q < (vp::thorough ? 1500 : 250); ++q)
    {
        std::vector<std::vector<int>> sets(g.below(5));
        for (auto& s : sets)
        {
            s.resize(g.chance(8) ? 0 : 1 + g.below(4));
            const int span = g.chance(30) ? 2 : 9;
            for (auto& x : s) x = static_cast<int>(g.below(static_cast<uint64_t>(span)));
        }
        tb.ev({{"op", "cart"}, {"sets", sets}, {"r", cartesian_combinations(sets)}});
        const int64_t x = g.in(-2147483647, 2147483647);
        tb.ev({{"op", "abs"}, {"x", x}, {"r", integral_abs(x)}});
        tb.ev({{"op", "abs"}, {"x", x}, {"r", integral_abs(static_cast<int32_t>(x))}});
        const auto s16 = static_cast<int16_t>(x);
        if (s16 != -32768) tb.ev({{"op", "abs"}, {"x", s16}, {"r", integral_abs(s16)}});
        const auto s8 = static_cast<int8_t>(x);
        if (s8 != -128) tb.ev({{"op", "abs"}, {"x", s8}, {"r", integral_abs(s8)}});
        tb.ev({{"op", "abs"}, {"x", static_cast<uint16_t>(x)}, {"r", integral_abs(static_cast<uint16_t>(x))}});
        const uint64_t big = g.chance(50) ? g.next() : (g.next() >> g.below(64));
        if (big != (1ull << 63))
        {
            tb.ev({{"op", "absW"}, {"x", vp::word(big)}, {"r", vp::word(static_cast<uint64_t>(integral_abs(static_cast<int64_t>(big))))}});
            tb.ev({{"op", "idW"}, {"x", vp::word(big)}, {"r", vp::word(static_cast<uint64_t>(round_to_n_decimal_places(static_cast<int64_t>(big), g.below(5))))}});
        }
        tb.ev({{"op", "idW"}, {"x", vp::word(big)}, {"r", vp::word(integral_abs(big))}});
        tb.ev({{"op", "idW"}, {"x", vp::word(big)}, {"r", vp::word(round_to_n_decimal_places(big, g.below(5)))}});
        // num/1000000 rounded to n places; numerators stay clear of ties, which binary fractions cannot represent
        const int n = static_cast<int>(g.below(6));
        int64_t   den = 1;
        for (int i = 0; i < 6 - n; ++i) den *= 10;
        int64_t num = g.in(-90000000, 90000000);
        if (std::llabs(num) % den == den / 2) ++num;
        const double rr = round_to_n_decimal_places(static_cast<double>(num) / 1e6, static_cast<uint64_t>(n));
        tb.ev({{"op", "round"}, {"num", num}, {"den", den}, {"r", static_cast<int64_t>(std::llround(rr * std::pow(10.0, n)))}});
        tb.ev({{"op", "round"}, {"num", num}, {"den", 1}, {"r", round_to_n_decimal_places(static_cast<int64_t>(num), static_cast<uint64_t>(n))}});
        std::vector<double> a(g.below(6)), b(g.chance(75) ? a.size() : g.below(6));
        J                   ja = J::array(), jb = J::array();
        for (auto& v : a) { const auto z = g.in(-9, 9); v = static_cast<double>(z); ja.push_back(z); }
        for (auto& v : b) { const auto z = g.in(-9, 9); v = static_cast<double>(z); jb.push_back(z); }
        bool   thrown = false;
        double chi    = 0;
        try { chi = cost_function_chi(a, b); } catch (const std::invalid_argument&) { thrown = true; }
        tb.ev({{"op", "chi"}, {"a", ja}, {"b", jb}, {"thrown", thrown}, {"r", static_cast<int64_t>(std::llround(chi))}});
    }
    tb.ev({{"op", "arr"}, {"n", 5}, {"x", 7}, {"r", create_array<5>(7)}});
    tb.ev({{"op", "arr"}, {"n", 1}, {"x", -1}, {"r", create_array<1>(-1)}});
    tb.ev({{"op", "conv"}, {"a", {3, 1, 2}}, {"r", convert_array<int64_t>(std::array<int8_t, 3>{3, 1, 2})}});
    tb.ev({{"op", "conv"}, {"a", {{3, 1}, {2, 5}, {9, 8}}}, {"r", convert_array_of_arrays<int64_t>(std::array<std::array<int8_t, 2>, 3>{{{3, 1}, {2, 5}, {9, 8}}})}});
}

template <class Q>
void queue_history(vp::Rng& g, const char* cmp)
{
    vp::History h{"queue", {{"cmp", cmp}}};
    Q           q;
    for (int i = 0; i < 60; ++i)
    {
        const int x = static_cast<int>(g.below(g.chance(50) ? 5 : 30));
        switch (g.below(5))
        {
            case 0: case 1:
                q.push(x);
                h.ev({{"op", "push"}, {"x", x}, {"size", q.size()}, {"empty", q.empty()}, {"top", q.top()}});
                break;
            case 2:
                if (!q.empty())
                {
                    const int t = q.top();
                    q.pop();
                    h.ev({{"op", "pop"}, {"x", t}, {"size", q.size()}, {"empty", q.empty()}});
                }
                break;
            case 3:
            {
                const Q& cq = q;
                const auto it  = q.find(x);
                const auto cit = cq.find(x);
                h.ev({{"op", "has"}, {"x", x}, {"r", cq.contains(x)}, {"found", it != q.end() && *it == x}, {"cfound", cit != cq.cend() && *cit == x}});
                break;
            }
            default:
            {
                J items = J::array();
                if (g.chance(50)) for (const auto& v : q) items.push_back(v);
                else for (auto it = q.cbegin(); it != q.cend(); ++it) items.push_back(*it);
                h.ev({{"op", "all"}, {"items", items}});
            }
        }
    }
    h.close();
}

void containers(vp::Rng& g)
{
    for (int k = 0; k < (vp::thorough ? 400 : 40); ++k)
    {
        queue_history<searchable_priority_queue<int>>(g, "less");
        queue_history<searchable_priority_queue<int, std::vector<int>, std::greater<int>>>(g, "greater");
        queue_history<searchable_priority_queue<int, std::deque<int>>>(g, "less");
    }
    vp::Table tb{"search"};
    for (int q = 0; q < (vp::thorough ? 20000 : 2500); ++q)
    {
        std::vector<int> a(g.below(9)), b(g.below(6));
        const auto       span = 2 + g.below(4);
        for (auto& x : a) x = static_cast<int>(g.below(span));
        for (auto& x : b) x = static_cast<int>(g.below(span));
        tb.ev({{"op", "two"}, {"a", a}, {"b", b}, {"r", std::distance(a.begin(), find_first_two_of(a.begin(), a.end(), b.begin(), b.end())) + 1}});
        if (q % 5 == 0)
        {
            std::map<double, int> m;
            std::set<int64_t>     ks;
            const int64_t         base = g.in(-1000000, 1000000) * 100;
            for (uint64_t i = g.below(7); i > 0; --i) ks.insert(base + g.in(-4000, 4000));
            int64_t p = base + g.in(-5000, 5000);
            if (!ks.empty() && g.chance(60)) p = *ks.begin() + g.pick(std::vector<int64_t>{0, 990, -990, 1010, -1010, 500, 100});
            bool edge = false;
            J    keys = J::array();
            // an offset common to all keys and the probe does not matter
            const double off = g.chance(40) ? static_cast<double>(g.in(-100000, 100000)) / 16.0 : 0.0;
            for (auto k : ks)
            {
                m[off + static_cast<double>(k) * 1e-9] = 1;
                keys.push_back(k);
                if (std::llabs(std::llabs(k - p) - 1000) < 3) edge = true;
            }
            if (edge || m.size() != ks.size()) continue;
            const auto it = find_key_with_tolerance(m, off + static_cast<double>(p) * 1e-9);
            tb.ev({{"op", "tol"}, {"keys", keys}, {"x", p}, {"r", it == m.cend() ? 0 : std::distance(m.cbegin(), it) + 1}});
        }
        if (q % 3 == 0 && !a.empty())
        {
            // hashing
            std::vector<int> u = a, v = a;
            g.shuffle(v);
            if (!v.empty() && g.chance(40)) v[g.below(v.size())] = static_cast<int>(g.below(span));
            std::set<int>          s1(u.begin(), u.end()), s2(v.begin(), v.end());
            std::multiset<int>     m1(u.begin(), u.end()), m2(v.begin(), v.end());
            std::pair<int, size_t> p1{u[0], u.size()}, p2{v[0], v.size()};
            std::array<int, 2>     a1{u.front(), u.back()}, a2{v.front(), v.back()};
            tb.ev({{"op", "hash"}, {"equal", s1 == s2}, {"heq", std::hash<std::set<int>>{}(s1) == std::hash<std::set<int>>{}(s2)}});
            tb.ev({{"op", "hash"}, {"equal", m1 == m2}, {"heq", std::hash<std::multiset<int>>{}(m1) == std::hash<std::multiset<int>>{}(m2)}});
            tb.ev({{"op", "hash"}, {"equal", p1 == p2}, {"heq", std::hash<std::pair<int, size_t>>{}(p1) == std::hash<std::pair<int, size_t>>{}(p2)}});
            tb.ev({{"op", "hash"}, {"equal", a1 == a2}, {"heq", std::hash<std::array<int, 2>>{}(a1) == std::hash<std::array<int, 2>>{}(a2)}});
            size_t h1 = 17, h2 = 17;
            for (int x : u) hash_combine_unordered(h1, x);
            for (int x : v) hash_combine_unordered(h2, x);
            tb.ev({{"op", "uhash"}, {"a", u}, {"b", v}, {"heq", h1 == h2}});
            // cell sets: linear coordinate hashes must not let different sets of cells collide
            std::vector<siqad::coord_t> cu, cv;
            J                           ju = J::array(), jv = J::array();
            for (uint64_t i = 0; i < 2 + g.below(3); ++i) cu.emplace_back(g.in(0, 4), g.in(0, 3), g.in(0, 1));
            cv = cu;
            g.shuffle(cv);
            if (g.chance(60)) { cv[0].x += 1; cv[1].x -= 1; }
            size_t c1 = 0, c2 = 0;
            for (const auto& c : cu) hash_combine_unordered(c1, c), ju.push_back({c.x, c.y, static_cast<int>(c.z)});
            for (const auto& c : cv) hash_combine_unordered(c2, c), jv.push_back({c.x, c.y, static_cast<int>(c.z)});
            tb.ev({{"op", "uhash"}, {"a", ju}, {"b", jv}, {"heq", c1 == c2}});
        }
    }
}

void csv(vp::Rng& g)
{
    const std::vector<std::string> words{"x", "y", "", "operational status", "0.5", "a b", "-1", "semi;colon"};
    for (int k = 0; k < (vp::thorough ? 600 : 120); ++k)
    {
        vp::History       h{"csv", J::object({{"x", 0}})};
        std::stringstream ss;
        ss << std::setprecision(12);  // the stream's own format is the caller's business
        csv_writer w{ss};
        for (int i = 0; i < 8; ++i)
        {
            const std::string a = g.pick(words), b = g.pick(words);
            const int         n = static_cast<int>(g.in(-50, 50));
            const uint64_t    u = g.below(100000);
            J                 cells = J::array();
            switch (g.below(10))
            {
                case 0: w.write_line(a); cells = {a}; break;
                case 1: w.write_line(a, b); cells = {a, b}; break;
                case 2: w.write_line(n, a, u); cells = {std::to_string(n), a, std::to_string(u)}; break;
                case 3: w.write_line("lit", n, b, n, u, a); cells = {"lit", std::to_string(n), b, std::to_string(n), std::to_string(u), a}; break;
                case 4: w.write_line(); break;
                case 6: w.write_line(true, 3.0, false, 1.25f); cells = {"1", "3", "0", "1.25"}; break;
                case 7:
                {
                    const double d = static_cast<double>(n) * 1024.125;
                    std::stringstream own;
                    own << std::setprecision(12) << d;
                    w.write_line(d, std::string_view{b}, d); cells = {own.str(), b, own.str()};
                    break;
                }
                case 8: w.write_line(u, u, u, u, u, u, u, u, a); cells = J::array(); for (int c = 0; c < 8; ++c) cells.push_back(std::to_string(u)); cells.push_back(a); break;
                case 5: w.write_line(0.5, 'c', n); cells = {"0.5", "c", std::to_string(n)}; break;
                default: { std::string t = a; w.write_line(std::move(t), n); cells = {a, std::to_string(n)}; }
            }
            h.ev({{"op", "line"}, {"cells", cells}, {"text", ss.str()}});
        }
        h.close();
    }
}

int main(int argc, char** argv)
{
    vp::init(argc, argv);
    vp::Rng g{vp::seed};
    if (vp::is_mode("combin")) combin(g);
    if (vp::is_mode("containers")) containers(g);
    if (vp::is_mode("csv")) csv(g);
    return vp::finish();
}
