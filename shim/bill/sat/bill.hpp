// Stand-in for bill (SAT solver interface): every backend is served by Z3's SAT core.
#pragma once
#include <cstdint>
#include <initializer_list>
#include <utility>
#include <variant>
#include <vector>
#include <z3.h>
namespace bill
{
using var_type = uint32_t;
enum class polarities : uint8_t { positive = 0, negative = 1 };
inline constexpr polarities positive_polarity = polarities::positive;
inline constexpr polarities negative_polarity = polarities::negative;
struct lit_type
{
    lit_type() = default;
    lit_type(var_type v, polarities p = positive_polarity) : data((v << 1) | (p == negative_polarity ? 1u : 0u)) {}
    var_type variable() const { return data >> 1; }
    bool     is_complemented() const { return data & 1; }
    lit_type operator~() const
    {
        lit_type r = *this;
        r.data ^= 1;
        return r;
    }
    bool operator==(const lit_type& o) const { return data == o.data; }
    bool operator!=(const lit_type& o) const { return data != o.data; }
    bool operator<(const lit_type& o) const { return data < o.data; }
    uint32_t data = 0;
};
enum class lbool_type : uint8_t { false_ = 0, true_, undefined };
class result
{
  public:
    using model_type       = std::vector<lbool_type>;
    using clause_type      = std::vector<lit_type>;
    enum class states : uint8_t { undefined, satisfiable, unsatisfiable, timeout, dirty };
    result(states s = states::undefined) : s{s} {}
    result(model_type m) : s{states::satisfiable}, m{std::move(m)} {}
    model_type model() const { return m; }
    states     status() const { return s; }

  private:
    states     s;
    model_type m;
};
enum class solvers { glucose_41, ghack, bsat2, bmcg, maple, abc };
template <solvers S = solvers::ghack>
class solver
{
  public:
    solver()
    {
        Z3_config c = Z3_mk_config();
        ctx         = Z3_mk_context(c);
        Z3_del_config(c);
        s = Z3_mk_simple_solver(ctx);
        Z3_solver_inc_ref(ctx, s);
    }
    ~solver()
    {
        Z3_solver_dec_ref(ctx, s);
        Z3_del_context(ctx);
    }
    solver(const solver&)            = delete;
    solver& operator=(const solver&) = delete;
    var_type add_variable()
    {
        vars.push_back(Z3_mk_const(ctx, Z3_mk_int_symbol(ctx, static_cast<int>(vars.size())), Z3_mk_bool_sort(ctx)));
        return static_cast<var_type>(vars.size() - 1);
    }
    void add_variables(uint32_t n = 1) { while (n--) add_variable(); }
    uint32_t num_variables() const { return static_cast<uint32_t>(vars.size()); }
    void add_clause(const std::vector<lit_type>& c)
    {
        std::vector<Z3_ast> a;
        for (const auto& l : c) a.push_back(ast(l));
        Z3_solver_assert(ctx, s, a.empty() ? Z3_mk_false(ctx) : Z3_mk_or(ctx, static_cast<unsigned>(a.size()), a.data()));
    }
    void add_clause(lit_type l) { Z3_solver_assert(ctx, s, ast(l)); }
    result::states solve(const std::vector<lit_type>& assumptions = {}, uint32_t = 0)
    {
        std::vector<Z3_ast> a;
        for (const auto& l : assumptions) a.push_back(ast(l));
        const auto r = Z3_solver_check_assumptions(ctx, s, static_cast<unsigned>(a.size()), a.data());
        m.clear();
        if (r == Z3_L_TRUE)
        {
            Z3_model md = Z3_solver_get_model(ctx, s);
            Z3_model_inc_ref(ctx, md);
            for (auto v : vars)
            {
                Z3_ast o = nullptr;
                Z3_model_eval(ctx, md, v, true, &o);
                m.push_back(Z3_get_bool_value(ctx, o) == Z3_L_TRUE ? lbool_type::true_ : lbool_type::false_);
            }
            Z3_model_dec_ref(ctx, md);
            return result::states::satisfiable;
        }
        return r == Z3_L_FALSE ? result::states::unsatisfiable : result::states::undefined;
    }
    result get_model() const { return result{m}; }
    result get_result() const { return result{m}; }

  private:
    Z3_ast ast(lit_type l) { return l.is_complemented() ? Z3_mk_not(ctx, vars.at(l.variable())) : vars.at(l.variable()); }
    Z3_context              ctx;
    Z3_solver               s;
    std::vector<Z3_ast>     vars;
    result::model_type      m;
};
template <typename Solver>
void at_least_one(const std::vector<var_type>& vs, Solver& s)
{
    std::vector<lit_type> c;
    for (auto v : vs) c.emplace_back(v, positive_polarity);
    s.add_clause(c);
}
template <typename Solver>
lit_type add_tseytin_or(Solver& s, const std::vector<lit_type>& ls)
{
    const lit_type r{s.add_variable()};
    auto           c = ls;
    c.push_back(~r);
    s.add_clause(c);
    for (auto l : ls) s.add_clause(std::vector<lit_type>{~l, r});
    return r;
}
template <typename Solver>
lit_type add_tseytin_and(Solver& s, const std::vector<lit_type>& ls)
{
    const lit_type        r{s.add_variable()};
    std::vector<lit_type> c{r};
    for (auto l : ls)
    {
        c.push_back(~l);
        s.add_clause(std::vector<lit_type>{l, ~r});
    }
    s.add_clause(c);
    return r;
}
template <typename Solver>
lit_type add_tseytin_equals(Solver& s, lit_type a, lit_type b)
{
    const lit_type r{s.add_variable()};
    s.add_clause(std::vector<lit_type>{~a, ~b, r});
    s.add_clause(std::vector<lit_type>{a, b, r});
    s.add_clause(std::vector<lit_type>{~a, b, ~r});
    s.add_clause(std::vector<lit_type>{a, ~b, ~r});
    return r;
}
}  // namespace bill
