// Conformance driver for fiction's coordinate types (layouts/coordinates.hpp).
#include "vp.hpp"

#include <fiction/layouts/coordinates.hpp>

#include <set>
#include <sstream>
#include <unordered_set>

using namespace fiction;
using vp::J;
using O = offset::ucoord_t;
using C = cube::coord_t;
using S = siqad::coord_t;

template <class T>
const char* tag()
{
    if constexpr (std::is_same_v<T, O>) return "O";
    else if constexpr (std::is_same_v<T, C>) return "C";
    else return "S";
}
template <class T>
J j(const T& c)
{
    return J::array({static_cast<int64_t>(c.x), static_cast<int64_t>(c.y), static_cast<int64_t>(c.z), c.is_dead() ? 1 : 0});
}
static const std::vector<int64_t> BIG{0, 1, 2, 3, 7, 255, 256, 65535, 65536, 1073741823, 1073741824, 2147483646, 2147483647};

template <class T>
T rnd(vp::Rng& r, int64_t lim, bool big = false, bool neg = true, bool maybe_dead = true)
{
    const bool sgn = neg && !std::is_same_v<T, O>;
    auto       v   = [&]() -> int64_t
    {
        int64_t a = big && r.chance(60) ? r.pick(BIG) : r.in(0, lim);
        if (sgn && r.chance(50)) a = -a;
        return a;
    };
    const auto x = v(), y = v();
    int64_t    z = std::is_same_v<T, C> ? v() : r.in(0, 1);
    T          c{x, y, z};
    if (maybe_dead && r.chance(12)) c = c.get_dead();
    return c;
}

template <class T>
void identity(vp::Rng& r)
{
    vp::Table tb{"identity"};
    const auto cmp = [&](const T& a, const T& b)
    {
        J e{{"op", "cmp"}, {"t", tag<T>()}, {"a", j(a)}, {"b", j(b)}, {"eq", a == b}, {"ne", a != b}, {"lt", a < b},
            {"gt", a > b}, {"le", a <= b}, {"ge", a >= b}, {"heq", std::hash<T>{}(a) == std::hash<T>{}(b)}};
        tb.ev(e);
    };
    // exhaustive over a small cube, including dead copies
    std::vector<T> small;
    const int lo = std::is_same_v<T, O> ? 0 : -1;
    for (int x = lo; x <= 1; ++x)
        for (int y = lo; y <= 1; ++y)
            for (int z = std::is_same_v<T, C> ? lo : 0; z <= 1; ++z)
            {
                small.emplace_back(x, y, z);
                small.push_back(T{x, y, z}.get_dead());
            }
    if constexpr (std::is_same_v<T, O>)
        for (int x : {2, 3}) for (int z : {0, 1}) small.emplace_back(x, 2, z);
    for (const auto& a : small)
        for (const auto& b : small)
            if (small.size() < 30 || r.chance(vp::thorough ? 100 : 60)) cmp(a, b);
    const int n = vp::thorough ? 20000 : 3000;
    for (int k = 0; k < n; ++k)
    {
        auto a = rnd<T>(r, 4, true), b = rnd<T>(r, 4, true);
        if (r.chance(70)) b = a;
        if (r.chance(60))
        {
            // differ in few places only
            switch (r.below(4))
            {
                case 0: if constexpr (std::is_same_v<T, O>) b.x = static_cast<uint32_t>(r.pick(BIG)); else b.x = static_cast<int32_t>(r.pick(BIG)); break;
                case 1: if constexpr (std::is_same_v<T, O>) b.y = static_cast<uint32_t>(r.pick(BIG)); else b.y = static_cast<int32_t>(r.pick(BIG)); break;
                case 2: b.z = b.z == 0 ? 1 : 0; break;
                default: b = b.get_dead();
            }
        }
        cmp(a, b);
    }
    for (int k = 0; k < (vp::thorough ? 600 : 120); ++k)
    {
        std::vector<T>        v;
        std::set<T>           s;
        std::unordered_set<T> us;
        const auto            len = r.in(2, 12);
        const bool            big = r.chance(30);
        for (int q = 0; q < len; ++q)
        {
            auto c = rnd<T>(r, 2, big, true, false);
            v.push_back(c);
            s.insert(c);
            us.insert(c);
        }
        J inp = J::array(), so = J::array();
        for (const auto& c : v) inp.push_back(j(c));
        for (const auto& c : s) so.push_back(j(c));
        tb.ev({{"op", "sort"}, {"t", tag<T>()}, {"inp", inp}, {"sorted", so}});
        bool found = true;
        for (const auto& c : v) found = found && us.count(c) == 1 && s.count(c) == 1;
        tb.ev({{"op", "set"}, {"inp", inp}, {"size", us.size()}, {"found", found}});
    }
    tb.ev({{"op", "default"}, {"c", j(T{})}, {"dead", T{}.is_dead()}});
    tb.ev({{"op", "cmp"}, {"t", tag<T>()}, {"a", j(T{3, 2})}, {"b", j(T{3, 2, 0})}, {"eq", T{3, 2} == T{3, 2, 0}}, {"ne", T{3, 2} != T{3, 2, 0}},
           {"lt", false}, {"gt", false}, {"le", true}, {"ge", true}, {"heq", true}});
    for (int k = 0; k < (vp::thorough ? 3000 : 600); ++k)
    {
        const auto c = rnd<T>(r, 40, true);
        const auto d = c.get_dead();
        tb.ev({{"op", "dead"}, {"c", j(c)}, {"r", j(d)}, {"isdead", d.is_dead()}, {"was", c.is_dead()}});
        // TLC integers exclude -2^31, which rnd never makes
        std::string s1 = c.str(), s2 = fmt::format("{}", c), s3 = s1;
        if constexpr (std::is_same_v<T, O>)
        {
            std::stringstream ss;
            ss << c;
            s3 = ss.str();
        }
        tb.ev({{"op", "str"}, {"c", j(c)}, {"s1", s1}, {"s2", s2}, {"s3", s3}});
        if constexpr (std::is_same_v<T, O>)
        {
            const auto     w = static_cast<uint64_t>(c);
            const uint64_t v = r.chance(50) ? w : (r.chance(50) ? w ^ (1ull << r.below(64)) : r.next());
            tb.ev({{"op", "pack"}, {"c", j(c)}, {"w", vp::word(w)}, {"back", j(O{w})}, {"eqw", c == w}, {"v", vp::word(v)}, {"eqv", c == v}});
            const uint64_t u = r.chance(50) ? r.next() : (1ull << r.below(64));
            tb.ev({{"op", "unpack"}, {"w", vp::word(u)}, {"c", j(O{u})}});
        }
    }
}

template <class T>
void iterate(const T& ar, const T& start)
{
    vp::note(std::string("coord_iterator ") + ar.str() + start.str());
    vp::History        h{"iter", {{"t", tag<T>()}, {"ar", j(ar)}, {"start", j(start)}}};
    coord_iterator<T>  it{ar, start};
    h.ev({{"op", "begin"}, {"c", j(*it)}, {"ended", (*it).is_dead()}});
    const coord_iterator<T> end{ar, ar.get_dead()};
    for (int k = 0; k < 400 && !(*it).is_dead(); ++k)
    {
        if (k % 3 == 2)
        {
            const auto before = *it;
            const auto old    = it++;
            if (*old != before) std::abort();
        }
        else ++it;
        h.ev({{"op", "next"}, {"c", j(*it)}, {"ended", it == end}});
    }
    h.close();
}

template <class T>
void region(vp::Rng& r)
{
    const int N = vp::thorough ? 3 : 2;
    const int lo = std::is_same_v<T, O> ? 0 : -1;
    for (int x = 0; x <= N; ++x)
        for (int y = 0; y <= N; ++y)
            for (int z = 0; z <= (std::is_same_v<T, C> ? 2 : 1); ++z)
            {
                const T ar{x, y, z};
                for (int sx = lo; sx <= x + 1; ++sx)
                    for (int sy = lo; sy <= y + 1; ++sy)
                        for (int sz = (std::is_same_v<T, C> ? lo : 0); sz <= 1; ++sz)
                            if (vp::thorough || (sx == 0 && sy == 0 && sz == 0) || r.chance(30)) iterate<T>(ar, T{sx, sy, sz});
            }
    for (int k = 0; k < (vp::thorough ? 300 : 60); ++k)
    {
        const T ar{r.in(0, 9), r.in(0, 9), r.in(0, std::is_same_v<T, C> ? 3 : 1)};
        iterate<T>(ar, T{r.in(0, 10), r.in(0, 10), r.in(0, 1)});
    }
    vp::Table tb{"region"};
    for (int k = 0; k < (vp::thorough ? 20000 : 4000); ++k)
    {
        const bool big = r.chance(20);
        T          ar  = rnd<T>(r, 3, big, false, false);
        T          c   = rnd<T>(r, 5, big, false, false);
        if (ar.x > 2147483600 || ar.y > 2147483600 || c.x > 2147483600 || c.y > 2147483600) continue;
        if constexpr (std::is_same_v<T, C>) if (ar.z > 2147483600 || c.z > 2147483600) continue;
        if (r.chance(40)) { c = ar; if (r.chance(80)) ++c.x; }
        T w = c;
        w.wrap(ar);
        tb.ev({{"op", "wrap"}, {"t", tag<T>()}, {"c", j(c)}, {"ar", j(ar)}, {"r", j(w)}});
        T s = rnd<T>(r, 60, r.chance(30), true, false);
        if constexpr (std::is_same_v<T, C>) { if (s.z > 1000 || s.z < -1000) s.z = static_cast<int32_t>(r.in(-5, 5)); }
        tb.ev({{"op", "size"}, {"t", tag<T>()}, {"c", j(s)}, {"area", vp::word(area(s))}, {"volume", vp::word(volume(s))}});
    }
}

void arithmetic(vp::Rng& r)
{
    vp::Table  tb{"arith"};
    const auto addsub = [&](const auto& a, const auto& b)
    {
        using T = std::decay_t<decltype(a)>;
        tb.ev({{"op", "add"}, {"t", tag<T>()}, {"a", j(a)}, {"b", j(b)}, {"r", j(a + b)}});
        tb.ev({{"op", "sub"}, {"t", tag<T>()}, {"a", j(a)}, {"b", j(b)}, {"r", j(a - b)}});
    };
    for (int ay = -2; ay <= 2; ++ay)
        for (int by = -2; by <= 2; ++by)
            for (int az : {0, 1})
                for (int bz : {0, 1})
                {
                    addsub(S{ay * 3, ay, az}, S{by, by, bz});
                    addsub(C{ay, ay * 2, az}, C{by * 5, by, bz});
                }
    for (int k = 0; k < (vp::thorough ? 20000 : 3000); ++k)
    {
        const int64_t lim = r.chance(30) ? 500000000 : 50;
        addsub(rnd<S>(r, lim, false, true, false), rnd<S>(r, lim, false, true, false));
        addsub(rnd<C>(r, lim, false, true, false), rnd<C>(r, lim, false, true, false));
    }
    const auto toF = [&](const S& s)
    { tb.ev({{"op", "toF"}, {"c", j(s)}, {"r", j(siqad::to_fiction_coord<C>(s))}}); };
    for (int y = -8; y <= 8; ++y)
        for (int z : {0, 1})
        {
            toF(S{y * 7, y, z});
            if (y >= 0) tb.ev({{"op", "toF"}, {"c", j(S{3, y, z})}, {"r", j(siqad::to_fiction_coord<O>(S{3, y, z}))}});
            tb.ev({{"op", "toS"}, {"c", j(C{y * 5, 2 * y + z, 0})}, {"r", j(siqad::to_siqad_coord(C{y * 5, 2 * y + z, 0}))}});
            if (y >= 0) tb.ev({{"op", "toS"}, {"c", j(O{3, 2 * y + z, 0})}, {"r", j(siqad::to_siqad_coord(O{3, 2 * y + z, 0}))}});
        }
    for (int64_t y : {1073741822ll, 1073741823ll, 1073741824ll, 2147483647ll, -1073741823ll, -1073741824ll, -1073741825ll, -2147483647ll})
        for (int z : {0, 1}) toF(S{1, y, z});
    for (int64_t y : {2147483647ll, 2147483646ll, 2147483645ll, 1073741824ll})
    {
        tb.ev({{"op", "toS"}, {"c", j(C{4, y, 0})}, {"r", j(siqad::to_siqad_coord(C{4, y, 0}))}});
        tb.ev({{"op", "toS"}, {"c", j(C{4, -y, 0})}, {"r", j(siqad::to_siqad_coord(C{4, -y, 0}))}});
        tb.ev({{"op", "toS"}, {"c", j(O{4, y, 0})}, {"r", j(siqad::to_siqad_coord(O{4, y, 0}))}});
    }
    toF(S{});
    toF(S{4, 3, 1}.get_dead());
    for (int k = 0; k < (vp::thorough ? 10000 : 2000); ++k)
    {
        toF(rnd<S>(r, 1000000, r.chance(50)));
        auto c = rnd<C>(r, 2000000000, r.chance(50), true, false);
        c.z    = 0;
        tb.ev({{"op", "toS"}, {"c", j(c)}, {"r", j(siqad::to_siqad_coord(c))}});
        auto o = rnd<O>(r, 2000000000, r.chance(50), true, false);
        o.z    = 0;
        tb.ev({{"op", "toS"}, {"c", j(o)}, {"r", j(siqad::to_siqad_coord(o))}});
        const auto oc = rnd<O>(r, 2000000000, r.chance(50));
        tb.ev({{"op", "toC"}, {"c", j(oc)}, {"r", j(offset_to_cube_coord(oc))}});
    }
}

int main(int argc, char** argv)
{
    vp::init(argc, argv);
    vp::Rng r{vp::seed};
    if (vp::is_mode("identity"))
    {
        identity<O>(r);
        identity<C>(r);
        identity<S>(r);
    }
    if (vp::is_mode("region"))
    {
        region<O>(r);
        region<C>(r);
        region<S>(r);
    }
    if (vp::is_mode("arith")) arithmetic(r);
    return vp::finish();
}
