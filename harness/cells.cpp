// Cell-level layouts, defect surfaces, and obstruction layouts as a state machine over several handles.
#include "common.hpp"

#include <fiction/layouts/bounding_box.hpp>
#include <fiction/layouts/cartesian_layout.hpp>
#include <fiction/layouts/cell_level_layout.hpp>
#include <fiction/layouts/clocked_layout.hpp>
#include <fiction/layouts/obstruction_layout.hpp>
#include <fiction/technology/cell_technologies.hpp>
#include <fiction/technology/charge_distribution_surface.hpp>
#include <fiction/technology/sidb_defect_surface.hpp>
#include <fiction/technology/sidb_lattice.hpp>
#include <fiction/types.hpp>
#include <fiction/utils/layout_utils.hpp>

#include <deque>
#include <map>
#include <memory>
#include <optional>
#include <variant>

static const std::map<sidb_defect_type, std::string> dnames{
    {sidb_defect_type::NONE, "NONE"}, {sidb_defect_type::DB, "DB"}, {sidb_defect_type::SI_VACANCY, "SI_VACANCY"}, {sidb_defect_type::SINGLE_DIHYDRIDE, "SINGLE_DIHYDRIDE"},
    {sidb_defect_type::DIHYDRIDE_PAIR, "DIHYDRIDE_PAIR"}, {sidb_defect_type::ONE_BY_ONE, "ONE_BY_ONE"}, {sidb_defect_type::THREE_BY_ONE, "THREE_BY_ONE"},
    {sidb_defect_type::SILOXANE, "SILOXANE"}, {sidb_defect_type::RAISED_SI, "RAISED_SI"}, {sidb_defect_type::MISSING_DIMER, "MISSING_DIMER"}, {sidb_defect_type::ETCH_PIT, "ETCH_PIT"},
    {sidb_defect_type::STEP_EDGE, "STEP_EDGE"}, {sidb_defect_type::GUNK, "GUNK"}, {sidb_defect_type::ARSENIC, "ARSENIC"}, {sidb_defect_type::UNKNOWN, "UNKNOWN"}};

template <class L>
struct types;
template <class T>
std::string type_chars()
{
    if constexpr (std::is_same_v<T, qca_technology>) return " xio01";
    else if constexpr (std::is_same_v<T, mol_qca_technology>) return " abcdio01";
    else if constexpr (std::is_same_v<T, inml_technology>) return " xioudncf";
    else return " xiol";
}

// a defect surface or nothing
template <class Lyt, bool SiDB>
struct surfaces
{
    using variant = std::variant<Lyt, obstruction_layout<Lyt>>;
};
template <class Lyt>
struct surfaces<Lyt, true>
{
    using variant = std::variant<Lyt, obstruction_layout<Lyt>, sidb_defect_surface<Lyt>>;
};

template <class Lyt>
struct Machine
{
    static constexpr bool sidb  = has_sidb_technology_v<Lyt>;
    static constexpr bool sq    = has_siqad_coord_v<Lyt>;
    static constexpr bool offs  = has_offset_ucoord_v<Lyt>;
    using T                     = technology<Lyt>;
    using C                     = cell<Lyt>;
    using V                     = typename surfaces<Lyt, sidb>::variant;
    using CT                    = typename T::cell_type;
    using CM                    = typename T::cell_mode;
    static constexpr bool modes = std::is_enum_v<CM>;

    vp::Rng&                           r;
    vp::History                        h{"cells"};
    std::deque<V>                      l;
    std::deque<std::function<J(bool)>> box;
    std::vector<C>                     used;
    std::string                        tc = type_chars<T>();

    template <class F>
    auto on(size_t i, F&& f)
    {
        return std::visit(std::forward<F>(f), l[i]);
    }
    template <class X>
    static constexpr bool is_surf = is_sidb_defect_surface_v<X>;
    template <class X>
    static constexpr bool is_obst = has_is_obstructed_coordinate_v<X>;

    C any()
    {
        if (!recent.empty() && r.chance(35)) return r.pick(recent);
        if (l.empty() || (!used.empty() && r.chance(40))) return recall(r.pick(used));
        C c{};
        on(0,
           [&](auto& x)
           {
               if constexpr (offs) c = C(r.below(x.x() + (r.chance(20) ? 4 : 1)), r.below(x.y() + (r.chance(20) ? 4 : 1)), r.below(x.z() + 1));
               else
               {
                   const int lo = r.chance(25) ? -5 : 0;
                   c            = C(r.in(lo, x.x()), r.in(lo, x.y()), sq ? r.below(2) : r.below(x.z() + 1));
               }
           });
        used.push_back(c);
        return recall(c);
    }
    // what was talked about lately comes up more often
    C recall(const C& c)
    {
        if (recent.size() < 4) recent.push_back(c);
        else recent[r.below(4)] = c;
        return c;
    }
    std::vector<C> recent;
    template <class X>
    J basic(X& x)
    {
        J cells = J::array(), pis = J::array(), pos = J::array(), by = J::array(), at = J::array();
        x.foreach_cell([&](const auto& c) { cells.push_back({js(c), std::string(1, static_cast<char>(x.get_cell_type(c))), mode(x, c), x.get_cell_name(c)}); });
        x.foreach_pi([&](const auto& c) { pis.push_back(js(c)); });
        x.foreach_po([&](const auto& c) { pos.push_back(js(c)); });
        for (const char t : tc)
            if (t != ' ')
            {
                J v = J::array();
                for (const auto& c : x.get_cells_by_type(static_cast<CT>(t))) v.push_back(js(c));
                by.push_back({{"t", std::string(1, t)}, {"c", v}, {"n", x.num_cells_of_given_type(static_cast<CT>(t))}});
            }
        for (int k = 0; k < 6; ++k)
        {
            const C c = any();
            // clock zones are defined on the grid
            int ck = -1;
            if (c.x >= 0 && c.y >= 0 && !sq) ck = x.get_clock_number(c);
            at.push_back({{"c", js(c)}, {"t", std::string(1, static_cast<char>(x.get_cell_type(c)))}, {"m", mode(x, c)}, {"nm", x.get_cell_name(c)}, {"e", x.is_empty_cell(c)}, {"pi", x.is_pi(c)}, {"po", x.is_po(c)}, {"k", ck}});
        }
        return {{"X", x.x()}, {"Y", x.y()}, {"Z", x.z()}, {"nm", x.get_layout_name()}, {"tx", x.get_tile_size_x()}, {"ty", x.get_tile_size_y()}, {"n", x.num_cells()}, {"empty", x.is_empty()}, {"np", x.num_pis()}, {"no", x.num_pos()}, {"cells", cells}, {"pis", pis}, {"pos", pos}, {"by", by}, {"at", at}};
    }
    template <class X>
    static int mode(const X& x, const C& c)
    {
        if constexpr (modes) return static_cast<int>(x.get_cell_mode(c));
        else return 0;
    }
    template <class B>
    static J boxj(const B& b)
    {
        return {{"min", js(b.get_min())}, {"max", js(b.get_max())}, {"xs", static_cast<int64_t>(b.get_x_size())}, {"ys", static_cast<int64_t>(b.get_y_size())}};
    }
    template <class X>
    J surf(X& x)
    {
        J df = J::array(), at = J::array(), aff = J::array(), all = J::array();
        x.foreach_sidb_defect(
            [&](const auto& d) { df.push_back({{"c", js(d.first)}, {"t", dnames.at(d.second.type)}, {"q", d.second.charge}, {"p", static_cast<int>(d.second.epsilon_r)}}); });
        for (int k = 0; k < 4; ++k)
        {
            const C c = any();
            at.push_back({{"c", js(c)}, {"t", dnames.at(x.get_sidb_defect(c).type)}});
        }
        if constexpr (!sq)
        {
            using P       = std::optional<std::pair<uint16_t, uint16_t>>;
            const auto ps = [&] { return r.chance(70) ? P{std::make_pair<uint16_t, uint16_t>(r.below(4), r.below(3))} : P{}; };
            const auto pj = [](const P& p) { return p ? J::array({p->first, p->second}) : J::array(); };
            const auto sj = [](const auto& s)
            {
                J a = J::array();
                for (const auto& c : s) a.push_back(js(c));
                return a;
            };
            if (r.chance(40) && !df.empty())
            {
                const C c = r.chance(70) ? C(df[0]["c"][0].template get<int>(), df[0]["c"][1].template get<int>(), df[0]["c"][2].template get<int>()) : any();
                const P a = ps(), b = ps();
                aff.push_back({{"c", js(c)}, {"cov", pj(a)}, {"nov", pj(b)}, {"r", sj(x.affected_sidbs(c, a, b))}});
                const P c2 = ps(), d2 = ps();
                if (c2 && d2) all.push_back({{"cov", pj(c2)}, {"nov", pj(d2)}, {"r", sj(x.all_affected_sidbs(c2, d2))}});
            }
        }
        return {{"df", df}, {"n", x.num_defects()}, {"pos", x.num_positively_charged_defects()}, {"neg", x.num_negatively_charged_defects()}, {"chg", x.num_charged_defects()}, {"neu", x.num_neutral_defects()}, {"at", at}, {"aff", aff}, {"all", all}, {"signed", !offs}};
    }
    std::vector<std::pair<C, C>> pairs;  // connections that were talked about
    template <class X>
    J obst(X& x)
    {
        J at = J::array(), on = J::array();
        for (int k = 0; k < 5; ++k)
        {
            C c = any(), d = any();
            if (!pairs.empty() && r.chance(70)) std::tie(c, d) = r.pick(pairs);
            if (r.chance(30)) std::swap(c, d);
            at.push_back({{"c", js(c)}, {"o", x.is_obstructed_coordinate(c)}});
            on.push_back({{"a", js(c)}, {"b", js(d)}, {"o", x.is_obstructed_connection(c, d)}});
        }
        return {{"at", at}, {"on", on}};
    }
    J observe()
    {
        J o = J::array();
        for (size_t i = 0; i < l.size(); ++i)
            o.push_back(on(i,
                           [&](auto& x) -> J
                           {
                               using X = std::decay_t<decltype(x)>;
                               J bx    = J::array();
                               if constexpr (!is_obst<X>) bx = box[i](true);
                               if constexpr (is_surf<X>) return {{"kind", "defect"}, {"b", basic(x)}, {"box", bx}, {"x", surf(x)}};
                               else if constexpr (is_obst<X>) return {{"kind", "obst"}, {"b", basic(x)}, {"box", bx}, {"x", obst(x)}};
                               else return {{"kind", "cell"}, {"b", basic(x)}, {"box", bx}, {"x", 0}};
                           }));
        return o;
    }
    J sames()
    {
        J s = J::array();
        for (size_t i = 0; i < l.size(); ++i)
            for (size_t j = 0; j < l.size(); ++j)
            {
                if (l[i].index() != l[j].index() || !r.chance(30)) continue;
                on(i,
                   [&](auto& x)
                   {
                       using X = std::decay_t<decltype(x)>;
                       if constexpr (!is_obst<X>)
                       {
                           const auto& y = std::get<X>(l[j]);
                           s.push_back({{"p", i + 1}, {"q", j + 1}, {"r", are_cell_layouts_identical(x, y)}, {"dig", cell_layout_digest(x) == cell_layout_digest(y)}});
                       }
                   });
            }
        return s;
    }
    void rec(J e, size_t i)
    {
        e["h"]    = i + 1;
        e["obs"]  = observe();
        e["same"] = sames();
        h.ev(e);
    }
    void add(V v)
    {
        l.push_back(std::move(v));
        const size_t i = l.size() - 1;
        on(i,
           [&](auto& x)
           {
               using X = std::decay_t<decltype(x)>;
               if constexpr (!is_obst<X>)
               {
                   auto p = std::make_shared<bounding_box_2d<X>>(x);
                   box.push_back(
                       [p, &x](bool)
                       {
                           J a = J::array();
                           p->update_bounding_box();
                           a.push_back(boxj(*p));
                           a.push_back(boxj(bounding_box_2d<X>{x}));
                           return a;
                       });
               }
               else box.push_back([](bool) { return J::array(); });
           });
    }
    std::pair<std::string, int> scheme()
    {
        std::string b = r.pick(bases);
        return {b, both(b) ? (r.chance(50) ? 3 : 4) : default_phases(b)};
    }
    void fresh()
    {
        const int         X = r.below(6), Y = r.below(6), Z = sq ? 1 : r.below(2);
        const int         tx = 1 + r.below(3), ty = 1 + r.below(3);
        auto [b, n]          = scheme();
        const std::string nm = r.chance(50) ? "lyt" : "";
        const auto        ar = [&]
        {
            if constexpr (offs) return typename Lyt::aspect_ratio(static_cast<uint64_t>(X), static_cast<uint64_t>(Y), static_cast<uint64_t>(Z));
            else return typename Lyt::aspect_ratio(X, Y, Z);
        }();
        if constexpr (is_sidb_lattice_v<Lyt>)
        {
            Lyt x{ar, nm};
            b = "OPEN", n = 4;
            add(std::move(x));
            rec({{"op", "new"}, {"X", X}, {"Y", Y}, {"Z", Z}, {"name", b}, {"n", n}, {"sq", sq}, {"nm", nm}, {"tx", 1}, {"ty", 1}}, 0);
        }
        else
        {
            if (b == "OPEN" && n == 4 && r.chance(50))
            {
                Lyt x{ar, nm, static_cast<uint16_t>(tx), static_cast<uint16_t>(ty)};
                add(std::move(x));
            }
            else
            {
                Lyt x{ar, make<Lyt>(b, n), nm, static_cast<uint16_t>(tx), static_cast<uint16_t>(ty)};
                add(std::move(x));
            }
            rec({{"op", "new"}, {"X", X}, {"Y", Y}, {"Z", Z}, {"name", b}, {"n", n}, {"sq", sq}, {"nm", nm}, {"tx", tx}, {"ty", ty}}, 0);
        }
    }
    void step(const std::string& focus)
    {
        const size_t i = r.below(l.size());
        const auto   k = r.below(100);
        on(i,
           [&](auto& x)
           {
               using X = std::decay_t<decltype(x)>;
               if (k < 42)
               {
                   const C    c = any();
                   const char t = r.chance(35) ? ' ' : tc[r.below(tc.size())];
                   vp::note("assign_cell_type");
                   x.assign_cell_type(c, static_cast<CT>(t));
                   rec({{"op", "type"}, {"c", js(c)}, {"v", std::string(1, t)}}, i);
               }
               else if (k < 48)
               {
                   if constexpr (modes)
                   {
                       const C   c = any();
                       const int m = r.below(4);
                       x.assign_cell_mode(c, static_cast<CM>(m));
                       rec({{"op", "mode"}, {"c", js(c)}, {"v", m}}, i);
                   }
               }
               else if (k < 54)
               {
                   const C           c = any();
                   const std::string n = r.chance(40) ? "" : std::string(1 + r.below(2), static_cast<char>('a' + r.below(26)));
                   x.assign_cell_name(c, n);
                   rec({{"op", "name"}, {"c", js(c)}, {"v", n}}, i);
               }
               else if (k < 57)
               {
                   if (l.size() >= 4) return;
                   add(V{x.clone()});
                   rec({{"op", "clone"}}, i);
               }
               else if (k < 59)
               {
                   if (l.size() >= 4) return;
                   add(V{x});
                   rec({{"op", "copy"}}, i);
               }
               else if (k < 63)
               {
                   if (l.size() >= 4) return;
                   if constexpr (!is_surf<X> && !is_obst<X>)
                   {
                       if constexpr (sidb)
                           if (focus != "cells" ? r.chance(65) : r.chance(30))
                           {
                               sidb_defect_surface_params ps{};
                               J                          ig = J::array();
                               if (r.chance(40))
                               {
                                   ps.ignore.insert(sidb_defect_type::GUNK);
                                   ps.ignore.insert(sidb_defect_type::DB);
                                   ig = {"GUNK", "DB"};
                               }
                               add(V{sidb_defect_surface<Lyt>{x, ps}});
                               rec({{"op", "wrap"}, {"kind", "defect"}, {"ignore", ig}}, i);
                               return;
                           }
                       add(V{obstruction_layout<Lyt>{x}});
                       rec({{"op", "wrap"}, {"kind", "obst"}, {"ignore", J::array()}}, i);
                   }
               }
               else if (k < 70)
               {
                   switch (r.below(6))
                   {
                       case 0: x.set_layout_name("n" + std::to_string(k)); rec({{"op", "lname"}, {"v", "n" + std::to_string(k)}}, i); break;
                       case 1: { const int v = 1 + r.below(4); x.set_tile_size_x(v); rec({{"op", "tsx"}, {"v", v}}, i); break; }
                       case 2: { const int v = 1 + r.below(4); x.set_tile_size_y(v); rec({{"op", "tsy"}, {"v", v}}, i); break; }
                       case 3:
                       {
                           const C c = any();
                           if (c.x < 0 || c.y < 0 || sq) break;
                           const int v = r.below(5);
                           x.assign_clock_number(c, v);
                           rec({{"op", "clk"}, {"c", js(c)}, {"v", v}}, i);
                           break;
                       }
                       case 4:
                       {
                           const auto [b, n] = scheme();
                           x.replace_clocking_scheme(make<Lyt>(b, n));
                           rec({{"op", "scheme"}, {"name", b}, {"n", n}}, i);
                           break;
                       }
                       default:
                       {
                           const int Xn = r.below(7), Yn = r.below(7), Z = sq ? 1 : r.below(2);
                           if constexpr (offs) x.resize(typename Lyt::aspect_ratio(static_cast<uint64_t>(Xn), static_cast<uint64_t>(Yn), static_cast<uint64_t>(Z)));
                           else x.resize(typename Lyt::aspect_ratio(Xn, Yn, Z));
                           rec({{"op", "resize"}, {"X", Xn}, {"Y", Yn}, {"Z", Z}}, i);
                       }
                   }
               }
               else if constexpr (is_surf<X>)
               {
                   static const std::vector<sidb_defect_type> all{sidb_defect_type::NONE, sidb_defect_type::DB, sidb_defect_type::SI_VACANCY, sidb_defect_type::SILOXANE, sidb_defect_type::GUNK, sidb_defect_type::ARSENIC, sidb_defect_type::UNKNOWN, sidb_defect_type::STEP_EDGE};
                   if (k < 90)
                   {
                       C c = any();
                       if (r.chance(40)) x.foreach_sidb_defect([&](const auto& d) { if (r.chance(50)) c = d.first; });
                       const auto t = r.pick(all);
                       const int  q = r.chance(50) ? 0 : r.in(-2, 2), p = r.below(9);
                       x.assign_sidb_defect(c, sidb_defect{t, q, static_cast<double>(p), 1.0});
                       rec({{"op", "defect"}, {"c", js(c)}, {"d", {{"t", dnames.at(t)}, {"q", q}, {"p", p}}}}, i);
                   }
                   else
                   {
                       C a = any(), b = any();
                       x.foreach_sidb_defect([&](const auto& d) { if (r.chance(40)) a = d.first; else if (r.chance(50)) b = d.first; });
                       if (r.chance(8)) b = a;
                       x.move_sidb_defect(a, b);
                       rec({{"op", "mdefect"}, {"a", js(a)}, {"b", js(b)}}, i);
                   }
               }
               else if constexpr (is_obst<X>)
               {
                   C a = any(), b = any();
                   if (!pairs.empty() && r.chance(60))
                   {
                       std::tie(a, b) = r.pick(pairs);
                       if (r.chance(50)) std::swap(a, b);
                   }
                   else pairs.emplace_back(a, b);
                   if (k < 76) { x.obstruct_coordinate(a); rec({{"op", "obst"}, {"c", js(a)}}, i); }
                   else if (k < 81) { x.clear_obstructed_coordinate(a); rec({{"op", "unobst"}, {"c", js(a)}}, i); }
                   else if (k < 92) { x.obstruct_connection(a, b); rec({{"op", "obstc"}, {"a", js(a)}, {"b", js(b)}}, i); }
                   else if (k < 96) { x.clear_obstructed_connection(a, b); rec({{"op", "unobstc"}, {"a", js(a)}, {"b", js(b)}}, i); }
                   else if (k < 98) { x.clear_obstructed_coordinates(); rec({{"op", "noobst"}}, i); }
                   else { x.clear_obstructed_connections(); rec({{"op", "noobstc"}}, i); }
               }
           });
    }
    // conversions end a history: the result is a handle of another type
    template <class X, class Y>
    void converted(const std::string& to, X& src, const Y& res, size_t i)
    {
        (void)src;
        J  o = observe();
        J bx = J::array({boxj(bounding_box_2d<Y>{res})});
        Machine<Y> m{r};
        m.used.clear();
        res.foreach_cell([&](const auto& c) { m.used.push_back(c); });
        m.used.push_back(typename Machine<Y>::C(0, 0, 0));
        J b = m.basic(res);
        if constexpr (is_surf<Y>) o.push_back({{"kind", "defect"}, {"b", b}, {"box", bx}, {"x", m.surf(res)}});
        else o.push_back({{"kind", "cell"}, {"b", b}, {"box", bx}, {"x", 0}});
        // a converted surface is modelled as a fresh layout and its surface
        if constexpr (is_surf<Y>)
        {
            J base      = o.back();
            base["kind"] = "cell";
            base["box"]  = J::array();
            base["x"]    = 0;
            o.insert(o.end() - 1, base);
        }
        J e{{"op", "conv"}, {"to", to}, {"h", i + 1}, {"obs", o}, {"same", J::array()}};
        h.ev(e);
    }
    void run(int steps, const std::string& focus)
    {
        fresh();
        if constexpr (sidb)
            if (focus == "surfaces" || (focus == "convert" && r.chance(50)))
            {
                sidb_defect_surface_params ps{};
                J                          ig = J::array();
                if (r.chance(40))
                {
                    ps.ignore.insert(sidb_defect_type::GUNK);
                    ps.ignore.insert(sidb_defect_type::DB);
                    ig = {"GUNK", "DB"};
                }
                add(V{sidb_defect_surface<Lyt>{std::get<Lyt>(l[0]), ps}});
                rec({{"op", "wrap"}, {"kind", "defect"}, {"ignore", ig}}, 0);
            }
        if (focus == "surfaces" && (!sidb || r.chance(50)))
        {
            add(V{obstruction_layout<Lyt>{std::get<Lyt>(l[0])}});
            rec({{"op", "wrap"}, {"kind", "obst"}, {"ignore", J::array()}}, 0);
        }
        for (int s = 0; s < steps; ++s) step(focus);
        if (focus == "convert")
        {
            const size_t i = r.below(l.size());
            on(i,
               [&](auto& x)
               {
                   using X = std::decay_t<decltype(x)>;
                   if constexpr (!is_obst<X>)
                   {
                       // the layout's bounds must cover its cells before it is moved
                       const bounding_box_2d<X> bb{x};
                       if (static_cast<int64_t>(bb.get_max().x) > static_cast<int64_t>(x.x()) || static_cast<int64_t>(bb.get_max().y) > static_cast<int64_t>(x.y()))
                       {
                           const int Xn = std::max<int64_t>(bb.get_max().x, x.x()), Yn = std::max<int64_t>(bb.get_max().y, x.y()), Z = x.z();
                           if constexpr (offs) x.resize(typename Lyt::aspect_ratio(static_cast<uint64_t>(Xn), static_cast<uint64_t>(Yn), static_cast<uint64_t>(Z)));
                           else x.resize(typename Lyt::aspect_ratio(Xn, Yn, Z));
                           rec({{"op", "resize"}, {"X", Xn}, {"Y", Yn}, {"Z", Z}}, i);
                       }
                       if constexpr (sidb)
                       {
                           const auto w = r.below(3);
                           if (w == 1)
                           {
                               // surfaces are flat; SiQAD coordinates have no further layers
                               bool flat = true;
                               x.foreach_cell([&](const auto& c) { flat &= c.z == 0; });
                               if constexpr (is_surf<X>) x.foreach_sidb_defect([&](const auto& d) { flat &= d.first.z == 0; });
                               if constexpr (!sq)
                               {
                                   if (!flat) return;
                                   converted("siqad", x, convert_layout_to_siqad_coordinates(x), i);
                                   return;
                               }
                           }
                           if constexpr (sq)
                           {
                               if constexpr (is_surf<X>)
                               {
                                   if constexpr (is_sidb_lattice_111_v<X>) return;
                                   else if (r.chance(50)) converted("row", x, convert_layout_to_fiction_coordinates<sidb_defect_100_cell_clk_lyt_cube>(x), i);
                                   else converted("urow", x, convert_layout_to_fiction_coordinates<sidb_defect_100_cell_clk_lyt>(x), i);
                                   return;
                               }
                               else if (w == 1)
                               {
                                   if constexpr (is_sidb_lattice_111_v<X>) converted("row", x, convert_layout_to_fiction_coordinates<sidb_111_cell_clk_lyt_cube>(x), i);
                                   else converted("row", x, convert_layout_to_fiction_coordinates<sidb_100_cell_clk_lyt_cube>(x), i);
                                   return;
                               }
                               else if (w == 2)
                               {
                                   if constexpr (is_sidb_lattice_111_v<X>) converted("urow", x, convert_layout_to_fiction_coordinates<sidb_111_cell_clk_lyt>(x), i);
                                   else converted("urow", x, convert_layout_to_fiction_coordinates<sidb_100_cell_clk_lyt>(x), i);
                                   return;
                               }
                           }
                       }
                       converted("norm", x, normalize_layout_coordinates(x), i);
                   }
               });
        }
        h.close();
    }
};

template <class Lyt>
void all(int salt)
{
    for (const std::string f : {"cells", "surfaces", "convert"})
    {
        if (!vp::is_mode(f)) continue;
        vp::Rng r{vp::seed * 131 + salt * 17 + f[0]};
        const int n = f == "convert" ? 60 : 25;
        for (int k = 0; k < (vp::thorough ? 10 * n : n); ++k) Machine<Lyt>{r}.run(f == "convert" ? 14 : 40, f);
    }
}

template <class C>
void spans(bool sq, bool sgn)
{
    vp::Rng r{vp::seed * 71 + sq * 2 + sgn};
    for (int k = 0; k < 40; ++k)
    {
        vp::History h{"cells"};
        const auto  c = [&] { return sgn ? C(r.in(-4, 4), r.in(-3, 4), sq ? r.below(2) : 0) : C(r.below(6), r.below(6), 0); };
        const C     a = c(), b = r.chance(15) ? a : c();
        J           v = J::array();
        for (const auto& x : all_coordinates_in_spanned_area(a, b)) v.push_back(js(x));
        h.ev({{"op", "span"}, {"sq", sq}, {"a", js(a)}, {"b", js(b)}, {"r", v}, {"obs", J::array()}, {"same", J::array()}});
        for (int j = 0; j < 4; ++j)
        {
            C p = c(), q = c();
            if (p.x > q.x) { const C o = p; p.x = q.x; q.x = o.x; }
            if (p.y > q.y) { const C o = p; p.y = q.y; q.y = o.y; }
            if (sq && p > q) continue;
            h.ev({{"op", "rnd"}, {"sq", sq}, {"a", js(p)}, {"b", js(q)}, {"r", js(random_coordinate(p, q))}, {"obs", J::array()}, {"same", J::array()}});
        }
        h.close();
    }
}

int main(int argc, char** argv)
{
    vp::init(argc, argv);
    all<cell_level_layout<qca_technology, clocked_layout<cartesian_layout<offset::ucoord_t>>>>(1);
    all<mol_qca_cell_clk_lyt>(2);
    all<inml_cell_clk_lyt>(3);
    all<sidb_cell_clk_lyt>(4);
    all<sidb_cell_clk_lyt_cube>(5);
    all<sidb_cell_clk_lyt_siqad>(6);
    all<sidb_100_cell_clk_lyt_siqad>(7);
    all<sidb_111_cell_clk_lyt>(8);
    all<stacked_qca_cell_clk_lyt>(9);
    if (vp::is_mode("convert"))
    {
        spans<offset::ucoord_t>(false, false);
        spans<cube::coord_t>(false, true);
        spans<siqad::coord_t>(true, true);
        vp::History h{"cells"};
#define ALIAS(t, c) h.ev({{"op", "alias"}, {"name", #t}, {"want", c}, {"got", has_offset_ucoord_v<t> ? "offset" : has_cube_coord_v<t> ? "cube" : "siqad"}, {"ptr", std::is_same_v<t##_ptr, std::shared_ptr<t>>}, {"obs", J::array()}, {"same", J::array()}})
#define ALIASES(t) ALIAS(t, "offset"); ALIAS(t##_cube, "cube"); ALIAS(t##_siqad, "siqad")
        ALIASES(sidb_cell_clk_lyt);
        ALIASES(sidb_100_cell_clk_lyt);
        ALIASES(sidb_111_cell_clk_lyt);
        ALIASES(cds_sidb_cell_clk_lyt);
        ALIASES(cds_sidb_100_cell_clk_lyt);
        ALIASES(cds_sidb_111_cell_clk_lyt);
        ALIASES(sidb_defect_cell_clk_lyt);
        ALIASES(sidb_defect_100_cell_clk_lyt);
        h.close();
    }
    return vp::finish();
}
