// Charge distribution surfaces and ground state simulation engines.
#include "sidb.hpp"

#include <fiction/algorithms/simulation/sidb/exhaustive_ground_state_simulation.hpp>
#include <fiction/algorithms/simulation/sidb/quickexact.hpp>
#include <fiction/algorithms/simulation/sidb/quicksim.hpp>
#include <fiction/algorithms/simulation/sidb/calculate_energy_and_state_type.hpp>
#include <fiction/algorithms/simulation/sidb/can_positive_charges_occur.hpp>
#include <fiction/algorithms/simulation/sidb/energy_distribution.hpp>
#include <fiction/algorithms/simulation/sidb/equivalence_check_for_simulation_results.hpp>
#include <fiction/algorithms/simulation/sidb/is_ground_state.hpp>
#include <fiction/algorithms/simulation/sidb/minimum_energy.hpp>
#include <fiction/algorithms/simulation/sidb/occupation_probability_of_excited_states.hpp>
#include <fiction/algorithms/simulation/sidb/physical_population_stability.hpp>
#include <fiction/algorithms/simulation/sidb/time_to_solution.hpp>

template <class Lyt>
Lyt build(const System<Lyt>& s)
{
    Lyt l{};
    l.resize(aspect_ratio<Lyt>{at<Lyt>(40, 40, 1)});
    for (const auto& c : s.sites) l.assign_cell_type(c, technology<Lyt>::cell_type::NORMAL);
    if constexpr (is_sidb_defect_surface_v<Lyt>)
        for (const auto& [c, d] : s.defects) l.assign_sidb_defect(c, d);
    return l;
}
template <class Lyt>
cell<Lyt> elsewhere(vp::Rng& r, const System<Lyt>& s)
{
    for (;;)
    {
        const auto c = at<Lyt>(r.in(0, 14), r.in(0, 6), r.in(0, 1));
        bool free = std::find(s.sites.begin(), s.sites.end(), c) == s.sites.end();
        for (const auto& [d, _] : s.defects) free &= !(d == c);
        if (free) return c;
    }
}

/***** surfaces *****/
template <class CDS, class Lyt>
J observe(const CDS& x, const System<Lyt>& s)
{
    J o, in = J::array(), lo = J::array(), ex = J::array(), df = J::array(), V = J::array(), neg = J::array();
    o["n"] = x.get_sidb_order().size(), o["c"] = J::array();
    for (const auto& c : s.sites)
    {
        o["c"].push_back(sign(x.get_charge_state(c)));
        in.push_back(units(*x.get_local_internal_potential(c)));
        lo.push_back(units(*x.get_local_potential_by_index(static_cast<uint64_t>(x.cell_to_index(c)))));
        ex.push_back(units(*x.get_local_external_potential(c)));
        df.push_back(units(*x.get_local_potential_caused_by_defects(c)));
        J row = J::array();
        for (const auto& d : s.sites) row.push_back(units(x.get_chargeless_potential_between_sidbs(c, d)));
        V.push_back(row);
    }
    for (const auto i : x.negative_sidb_detection()) neg.push_back(i + 1);
    const auto [ix, b] = x.get_charge_index_and_base();
    o["int"] = in, o["loc"] = lo, o["ext"] = ex, o["def"] = df, o["V"] = V, o["neg"] = neg, o["ix"] = ix, o["b"] = x.get_simulation_params().base, o["b2"] = b, o["mx"] = x.get_max_charge_index();
    o["cnt"] = {x.num_negative_sidbs(), x.num_neutral_sidbs(), x.num_positive_sidbs()};
    o["has"] = {x.charge_exists(sidb_charge_state::NEGATIVE), x.charge_exists(sidb_charge_state::NEUTRAL), x.charge_exists(sidb_charge_state::POSITIVE)};
    o["E"] = units(x.get_electrostatic_potential_energy()), o["v"] = x.is_physically_valid();
    o["nd"] = x.get_defects().size();
    return o;
}

template <class Lyt>
void surface(vp::Rng& r)
{
    using CDS = charge_distribution_surface<Lyt>;
    System<Lyt> s{};
    s.p     = random_params(r);
    s.sites = scatter<Lyt>(r, static_cast<int>(r.in(1, 6)));
    s.sort();
    std::vector<std::pair<cell<Lyt>, sidb_defect>> own{};
    if constexpr (is_sidb_defect_surface_v<Lyt>)
        for (int64_t k = 0, m = r.in(0, 2); k < m; ++k)
        {
            own.emplace_back(elsewhere(r, s), random_defect(r, false));
            s.defects = own;
        }
    const auto state = [&](int b) { return b == 3 ? r.pick(std::vector{sidb_charge_state::NEGATIVE, sidb_charge_state::NEUTRAL, sidb_charge_state::POSITIVE}) : r.pick(std::vector{sidb_charge_state::NEGATIVE, sidb_charge_state::NEUTRAL}); };
    auto       b     = static_cast<int>(s.p.base);
    const auto first = r.chance(50) ? sidb_charge_state::NEGATIVE : state(b);
    vp::note("charge_distribution_surface");
    CDS x{build(s), s.p, first};
    vp::History h{"surface", {{"S", s.S()}, {"c", std::vector<int>(s.sites.size(), sign(first))}, {"b", b}}};
    const auto emit = [&](J e)
    {
        e["o"] = observe(x, s);
        h.ev(e);
    };
    emit({{"op", "start"}});
    std::optional<cell<Lyt>> dep{};
    bool synced = true, known = true;  // is the index that of the configuration; is the largest index that of the base
    for (int64_t step = 0, m = r.in(6, vp::thorough ? 30 : 16); step < m; ++step)
    {
        const auto n  = s.sites.size();
        const auto i  = r.below(n);
        const auto cs = state(b);
        const bool up = r.chance(80);
        const auto um = up ? charge_index_mode::UPDATE_CHARGE_INDEX : charge_index_mode::KEEP_CHARGE_INDEX;
        const bool var = r.chance(50), energy = r.chance(75);
        const auto dm = var ? dependent_cell_mode::VARIABLE : dependent_cell_mode::FIXED;
        const auto em = energy ? energy_calculation::UPDATE_ENERGY : energy_calculation::KEEP_OLD_ENERGY_VALUE;
        const auto update = [&]
        {
            vp::note("update_after_charge_change");
            x.update_after_charge_change(dm, em);
            emit({{"op", "update"}, {"var", var}, {"energy", energy}});
        };
        switch (r.below(18))
        {
            case 0:
                vp::note("assign_charge_state");
                x.assign_charge_state(s.sites[i], cs, um), synced = up;
                emit({{"op", "set"}, {"i", i + 1}, {"cs", sign(cs)}, {"upd", up}});
                break;
            case 1:
                x.assign_charge_state_by_index(i, cs, um), synced = up;
                emit({{"op", "set"}, {"i", i + 1}, {"cs", sign(cs)}, {"upd", up}});
                break;
            case 2:
                x.assign_all_charge_states(cs, um), synced = up;
                emit({{"op", "setall"}, {"cs", sign(cs)}, {"upd", up}});
                break;
            case 3:
                x.assign_charge_state(elsewhere(r, s), cs, um), synced |= up;
                emit({{"op", "none"}, {"upd", up}});
                break;
            case 4:
                x.charge_distribution_to_index(), synced = true;
                emit({{"op", "toindex"}});
                break;
            case 5: case 6: update(); break;
            case 7: case 8:
                if (!synced || !known) break;
                vp::note("increase_charge_index_by_one");
                x.increase_charge_index_by_one(dm, em);
                emit({{"op", "inc"}, {"var", var}, {"energy", energy}});
                break;
            case 9:
            {
                if (!known) break;
                const auto ix = r.below(x.get_max_charge_index() + 1);
                vp::note("assign_charge_index");
                x.assign_charge_index(ix), synced = true;
                emit({{"op", "index"}, {"ix", ix}});
                update();
                break;
            }
            case 10:
                if (!dep && r.chance(60)) break;
                vp::note("assign_dependent_cell");
                dep = s.sites[i];
                x.assign_dependent_cell(*dep), synced = false, known = true;
                emit({{"op", "dep"}, {"i", i + 1}});
                break;
            case 11:
            {
                const auto nb = x.charge_exists(sidb_charge_state::POSITIVE) ? 3 : static_cast<int>(r.in(2, 3));
                x.assign_base_number(static_cast<uint8_t>(nb)), synced &= nb == b, known = true, b = nb, s.p.base = static_cast<uint8_t>(nb);
                emit({{"op", "base"}, {"b", nb}});
                break;
            }
            case 12:
            {
                J ex = J::array(), ey = J::array();
                vp::note("external potential");
                if (r.chance(40))
                {
                    const double v = r.pick(std::vector<double>{0.1, -0.15, 0.3, 0.0, -0.05});
                    for (const auto& c : s.sites) s.ext[c] += v, ex.push_back(units(v));
                    for (size_t k = 0; k < s.defects.size(); ++k) ey.push_back(0);
                    x.assign_global_external_potential(v);
                }
                else
                {
                    std::unordered_map<cell<Lyt>, double> mp{};
                    for (const auto& c : s.sites)
                    {
                        const double v = r.chance(50) ? r.pick(std::vector<double>{0.1, -0.2, 0.25, 0.31}) : 0.0;
                        ex.push_back(units(v));
                        if (v != 0.0) mp[c] = v, s.ext[c] += v;
                    }
                    for (const auto& [c, d] : s.defects)
                    {
                        const double v = r.chance(30) ? 0.12 : 0.0;
                        ey.push_back(units(v));
                        if (v != 0.0) mp[c] = v, s.ext[c] += v;
                    }
                    x.assign_local_external_potential(mp);
                }
                emit({{"op", "ext"}, {"x", ex}, {"y", ey}});
                if (r.chance(70)) update();
                break;
            }
            case 13:
                if (r.chance(50)) break;
                s.ext.clear();
                x.reset_local_external_potentials();
                emit({{"op", "reset"}});
                break;
            case 14: case 15:
            {
                vp::note("defects of a charge distribution surface");
                if (!s.defects.empty() && r.chance(35))
                {
                    const auto k = r.below(s.defects.size());
                    x.erase_defect(s.defects[k].first);
                    s.defects.erase(s.defects.begin() + static_cast<int64_t>(k));
                }
                else if (!s.defects.empty() && r.chance(30))
                {
                    auto& [c, d] = s.defects[r.below(s.defects.size())];
                    d            = random_defect(r, false);
                    x.add_sidb_defect_to_potential_landscape(c, d);
                }
                else if (r.chance(20)) x.add_sidb_defect_to_potential_landscape(s.sites[i], random_defect(r, false));
                else
                {
                    const auto d = random_defect(r);
                    const auto c = elsewhere(r, s);
                    x.add_sidb_defect_to_potential_landscape(c, d);
                    if (d.charge != 0) s.defects.emplace_back(c, d);
                }
                emit({{"op", "defect"}, {"d", s.D()}});
                if (r.chance(50)) update();
                break;
            }
            case 16:
            {
                const auto p = random_params(r, x.charge_exists(sidb_charge_state::POSITIVE) ? 3 : 0);
                vp::note("assign_physical_parameters");
                x.assign_physical_parameters(p), s.p = p;
                known = !dep, synced &= b == p.base, b = p.base;
                emit({{"op", "params"}, {"V", s.V()}, {"d", s.D()}, {"lo", units(p.mu_minus)}, {"hi", units(p.mu_minus - 0.59)}, {"b", b}});
                break;
            }
            default:
            {
                vp::note("copying a charge distribution surface");
                std::string how;
                switch (r.below(5))
                {
                    case 0: { how = "clone"; CDS y = x.clone(); x.assign_all_charge_states(state(b)); x.assign_global_external_potential(0.7); x.update_after_charge_change(); x = std::move(y); break; }
                    case 1: { how = "copy"; CDS y{x}; y.assign_all_charge_states(state(b)); y.assign_global_external_potential(0.7); y.update_after_charge_change(); break; }
                    case 2:
                    {
                        how = "assign";
                        System<Lyt> o{};
                        o.sites = scatter<Lyt>(r, 3);
                        CDS y{build(o)};
                        y = x;
                        x.assign_all_charge_states(state(b)), x.update_after_charge_change();
                        x = y;
                        y.assign_all_charge_states(state(b)), y.update_after_charge_change();
                        break;
                    }
                    case 3: { how = "move"; CDS y{std::move(x)}; x = std::move(y); break; }
                    default:
                    {
                        if (n >= 6) { how = "none"; break; }
                        how = "place";
                        const auto c = elsewhere(r, s);
                        x.assign_cell_type(c, technology<Lyt>::cell_type::NORMAL);
                        s.sites.push_back(c), s.sort(), s.ext.clear(), s.defects = own, dep.reset(), synced = known = true;
                        emit({{"op", "place"}, {"S", s.S()}});
                        continue;
                    }
                }
                emit({{"op", "same"}, {"how", how}});
            }
        }
    }
    h.close();
}

/***** engines *****/
template <class CDS, class Lyt>
J results(const std::vector<CDS>& ds, const System<Lyt>& s)
{
    J g = J::array();
    for (const auto& x : ds)
    {
        J c = J::array(), lo = J::array();
        for (const auto& q : s.sites) c.push_back(sign(x.get_charge_state(q))), lo.push_back(units(*x.get_local_potential(q)));
        const auto [ix, b] = x.get_charge_index_and_base();
        g.push_back({{"c", c}, {"loc", lo}, {"E", units(x.get_electrostatic_potential_energy())}, {"v", x.is_physically_valid()}, {"ix", ix}, {"b", b}});
    }
    return g;
}
template <class Lyt>
void engines(vp::Rng& r)
{
    using Q = quickexact_params<cell<Lyt>>;
    System<Lyt> s{};
    s.p     = random_params(r);
    s.sites = scatter<Lyt>(r, static_cast<int>(r.chance(15) ? 1 : r.in(2, vp::thorough ? 7 : 6)));
    s.sort();
    if constexpr (is_sidb_defect_surface_v<Lyt>)
        for (int64_t k = 0, m = r.in(0, 2); k < m; ++k)
        {
            const auto c = elsewhere(r, s);
            s.defects.emplace_back(c, random_defect(r, false));
        }
    const auto l    = build(s);
    const bool bare = s.defects.empty();
    {
        vp::History h{"engine", {{"S", s.S()}}};
        vp::note("exhaustive_ground_state_simulation");
        const auto res = exhaustive_ground_state_simulation(l, s.p);
        h.ev({{"op", "engine"}, {"by", "exgs"}, {"b", s.p.base}, {"got", results(res.charge_distributions, s)}});
        if constexpr (!is_sidb_defect_surface_v<Lyt>)
        {
            quicksim_params q{};
            q.simulation_parameters = s.p, q.iteration_steps = static_cast<uint64_t>(r.pick(std::vector<int>{1, 5, 20})), q.alpha = r.pick(std::vector<double>{0.7, 0.5, 1.0}), q.number_threads = static_cast<uint64_t>(r.in(1, 3));
            vp::note("quicksim");
            const auto res2 = quicksim(l, q);
            h.ev({{"op", "quicksim"}, {"some", res2.has_value()}, {"b", 2}, {"got", res2 ? results(res2->charge_distributions, s) : J::array()}});
        }
        h.close();
    }
    for (int k = 0; k < 2; ++k)
    {
        Q q{};
        q.simulation_parameters = s.p;
        const bool autobase     = k == 0;
        q.base_number_detection = autobase ? Q::automatic_base_number_detection::ON : Q::automatic_base_number_detection::OFF;
        if (r.chance(40)) q.global_potential = r.pick(std::vector<double>{0.1, -0.1, -0.3, 0.25});
        if (r.chance(40))
            for (const auto& c : s.sites)
                if (r.chance(60)) q.local_external_potential[c] = r.pick(std::vector<double>{0.1, -0.2, 0.05, 0.33});
        auto t = s;
        for (const auto& c : s.sites) t.ext[c] = q.global_potential + (q.local_external_potential.count(c) ? q.local_external_potential.at(c) : 0.0);
        vp::History h{"engine", {{"S", t.S()}}};
        vp::note("quickexact");
        const auto res = quickexact(l, q);
        h.ev({{"op", "engine"}, {"by", "quickexact"}, {"b", autobase ? 3 : static_cast<int>(s.p.base)}, {"pb", s.p.base}, {"got", results(res.charge_distributions, t)}});
        h.close();
    }
}

/***** quantities derived from simulation results *****/
template <class CDS, class Lyt>
J configs(const std::vector<CDS>& ds, const System<Lyt>& s)
{
    J g = J::array();
    for (const auto& x : ds)
    {
        J c = J::array();
        for (const auto& q : s.sites) c.push_back(sign(x.get_charge_state(q)));
        g.push_back(c);
    }
    return g;
}
template <class Lyt>
void derived(vp::Rng& r)
{
    System<Lyt> s{};
    s.p     = random_params(r);
    s.sites = scatter<Lyt>(r, static_cast<int>(r.chance(15) ? 1 : r.in(2, vp::thorough ? 6 : 5)));
    s.sort();
    if constexpr (is_sidb_defect_surface_v<Lyt>)
        for (int64_t k = 0, m = r.in(0, 2); k < m; ++k) s.defects.emplace_back(elsewhere(r, s), random_defect(r, false));
    const auto l = build(s);
    using Res    = sidb_simulation_result<Lyt>;
    const auto simulate = [&]() -> Res
    {
        quickexact_params<cell<Lyt>> q{};
        q.simulation_parameters = s.p;
        switch (r.below(4))
        {
            case 0: return exhaustive_ground_state_simulation(l, s.p);
            case 1: q.base_number_detection = quickexact_params<cell<Lyt>>::automatic_base_number_detection::OFF; return quickexact(l, q);
            case 2: return quickexact(l, q);
            default:
                if constexpr (!is_sidb_defect_surface_v<Lyt>)
                {
                    quicksim_params qs{};
                    qs.simulation_parameters = s.p, qs.iteration_steps = 3, qs.number_threads = 1;
                    const auto res = quicksim(l, qs);
                    return res ? *res : Res{};
                }
                else return exhaustive_ground_state_simulation(l, s.p);
        }
    };
    const auto distort = [&](Res res)
    {
        auto& ds = res.charge_distributions;
        r.shuffle(ds);
        if (r.chance(25) && !ds.empty()) ds.pop_back();
        if (r.chance(20) && !ds.empty()) ds.push_back(ds[r.below(ds.size())]);
        return res;
    };
    const auto A = r.chance(50) ? simulate() : distort(simulate());
    const auto B = r.chance(40) ? simulate() : r.chance(50) ? distort(A) : distort(simulate());
    const auto a = configs(A.charge_distributions, s), b = configs(B.charge_distributions, s);
    vp::History h{"derived", {{"S", s.S()}}};
    vp::note("groundstates");
    const auto gs = A.groundstates();
    h.ev({{"op", "ground"}, {"A", a}, {"got", configs(gs, s)}});
    vp::note("minimum_energy");
    const auto first = A.charge_distributions.cbegin(), last = A.charge_distributions.cend();
    if (first == last) h.ev({{"op", "nothing"}, {"infinite", std::isinf(minimum_energy(first, last))}, {"end", minimum_energy_distribution(first, last) == last}});
    else h.ev({{"op", "least"}, {"A", a}, {"E", units(minimum_energy(first, last))}, {"k", minimum_energy_distribution(first, last) - first + 1}});
    vp::note("is_ground_state");
    h.ev({{"op", "isground"}, {"A", a}, {"B", b}, {"r", is_ground_state(B, A)}});
    vp::note("check_simulation_results_for_equivalence");
    h.ev({{"op", "equal"}, {"A", a}, {"B", b}, {"r", check_simulation_results_for_equivalence(A, B)}});
    {
        const auto C = distort(A);
        h.ev({{"op", "equal"}, {"A", a}, {"B", configs(C.charge_distributions, s)}, {"r", check_simulation_results_for_equivalence(A, C)}});
    }
    vp::note("calculate_energy_distribution");
    {
        const auto d = calculate_energy_distribution(B.charge_distributions);
        J ds = J::array(), ns = J::array(), gs2 = J::array();
        d.for_each([&](double e, uint64_t g) { ds.push_back({units(e), g}); });
        for (uint64_t k = 0; k < d.size(); ++k)
        {
            const auto st = d.get_nth_state(k);
            ns.push_back(st ? J{units(st->electrostatic_potential_energy), st->degeneracy} : J::array());
            const auto g = d.degeneracy(st->electrostatic_potential_energy + r.pick(std::vector<double>{0, 2e-7, -3e-7}));
            gs2.push_back(g ? static_cast<int64_t>(*g) : -1);
        }
        h.ev({{"op", "spectrum"}, {"B", b}, {"d", ds}, {"nth", ns}, {"deg", gs2}, {"size", d.size()}, {"empty", d.empty()}, {"beyond", d.get_nth_state(d.size()).has_value()},
              {"far", d.degeneracy(1e3).has_value()}, {"range", d.empty() ? J::array() : J{units(d.min_energy()), units(d.max_energy())}}});
    }
    vp::note("can_positive_charges_occur");
    h.ev({{"op", "positive"}, {"r", can_positive_charges_occur(l, s.p)}});
    vp::note("time_to_solution_for_given_simulation_results");
    {
        auto ex               = A;
        ex.simulation_runtime = std::chrono::duration<double>{0.125};
        std::vector<Res> hs{};
        J                bs = J::array();
        int64_t          ms = 0;
        for (int64_t k = 0, m = r.in(1, 4); k < m; ++k)
        {
            hs.push_back(r.chance(60) ? A : B);
            const auto t               = r.in(1, 500);
            ms += t;
            hs.back().simulation_runtime = std::chrono::duration<double>{static_cast<double>(t) / 1000};
            bs.push_back(configs(hs.back().charge_distributions, s));
        }
        time_to_solution_stats st{};
        time_to_solution_for_given_simulation_results(ex, hs, 0.5, &st);
        const auto inf = std::isinf(st.time_to_solution);
        // with a confidence level of 1 - (1 - acc)^k, k repetitions are needed
        const auto k   = r.in(1, 5);
        time_to_solution_stats st2{};
        time_to_solution_for_given_simulation_results(ex, hs, st.acc >= 100 ? 0.9 : 1 - std::pow(1 - st.acc / 100, static_cast<double>(k)), &st2);
        const auto scaled = st2.time_to_solution * 1000 * static_cast<double>(hs.size());
        h.ev({{"op", "tts"}, {"A", a}, {"Bs", bs}, {"ms", ms}, {"acc", std::llround(st.acc * 100)}, {"mean", std::llround(st.mean_single_runtime * 1000 * static_cast<double>(hs.size()))},
              {"exact", std::llround(st.single_runtime_exact * 1000)}, {"inf", inf}, {"k", k}, {"tts", std::isfinite(scaled) ? std::llround(scaled) : -1}});
    }
    if constexpr (!is_sidb_defect_surface_v<Lyt>)
    {
        vp::note("physical_population_stability");
        physical_population_stability_params pp{};
        pp.simulation_parameters = s.p, pp.precision_for_distance_corresponding_to_potential = r.pick(std::vector<uint64_t>{1, 2, 3});
        const auto res = physical_population_stability(l, pp);
        const auto ix  = [&](const cell<Lyt>& c) { const auto it = std::find(s.sites.begin(), s.sites.end(), c); return it == s.sites.end() ? 0 : it - s.sites.begin() + 1; };
        const auto step = std::pow(10.0, -static_cast<double>(pp.precision_for_distance_corresponding_to_potential));
        const auto cap  = [](double v) { return units(std::min(v, 20.0)); };
        J g = J::array();
        for (const auto& i : res)
        {
            J ts = J::object();
            for (const auto& [name, t] : {std::pair{"on", transition_type::NEUTRAL_TO_NEGATIVE}, {"no", transition_type::NEGATIVE_TO_NEUTRAL}, {"op", transition_type::NEUTRAL_TO_POSITIVE}, {"po", transition_type::POSITIVE_TO_NEUTRAL}})
            {
                const auto& [c, v] = i.transition_potentials.at(t);
                const auto d       = i.distance_corresponding_to_potential.at(t);
                ts[name] = {{"c", ix(c)}, {"v", std::isinf(v) ? -1 : units(v)}, {"at", cap(coulomb(d, s.p.epsilon_r, s.p.lambda_tf))}, {"before", d < 1.5 * step ? 2000000000 : cap(coulomb(d - step, s.p.epsilon_r, s.p.lambda_tf))}};
            }
            g.push_back({{"E", units(i.system_energy)}, {"crit", ix(i.critical_cell)}, {"t", ts}});
        }
        h.ev({{"op", "stability"}, {"got", g}});
    }
    h.close();
}
// occupation probabilities at temperatures at which the Boltzmann factor halves with every step of the energy
void boltzmann(vp::Rng& r)
{
    vp::History h{"boltzmann"};
    for (int k = 0; k < 6; ++k)
    {
        const auto d = r.pick(std::vector<double>{0.0005, 0.001, 0.02, 0.0123}), e0 = r.pick(std::vector<double>{0.0, -1.25, 0.7});
        const auto T = d * 1.602176634e-19 / (1.380649e-23 * std::log(2.0));
        J          st = J::array();
        if (r.chance(50))
        {
            vp::note("occupation_probability_non_gate_based");
            energy_distribution x{};
            std::set<int64_t>   ms{0};
            for (int64_t q = 0, m = r.in(0, 4); q < m; ++q) ms.insert(r.in(1, 8));
            for (const auto m : ms)
            {
                const auto g = r.in(1, 4);
                x.add_energy_state({e0 + static_cast<double>(m) * d, static_cast<uint64_t>(g)});
                st.push_back({m, g});
            }
            h.ev({{"op", "excited"}, {"s", st}, {"p", std::llround(occupation_probability_non_gate_based(x, T) * 10000)}});
        }
        else
        {
            vp::note("occupation_probability_gate_based");
            sidb_energy_and_state_type x{};
            std::vector<int64_t>       ms{0};
            for (int64_t q = 0, m = r.in(0, 6); q < m; ++q) ms.push_back(r.in(0, 8));
            r.shuffle(ms);
            for (const auto m : ms)
            {
                const auto bad = r.chance(50);
                x.emplace_back(e0 + static_cast<double>(m) * d, bad ? state_type::REJECTED : state_type::ACCEPTED);
                st.push_back({m, bad ? 1 : 0});
            }
            h.ev({{"op", "erroneous"}, {"s", st}, {"p", std::llround(occupation_probability_gate_based(x, T) * 10000)}});
        }
        const auto m = r.in(0, 8);
        h.ev({{"op", "factor"}, {"m", m}, {"f", std::llround(calculate_boltzmann_factor(e0 + static_cast<double>(m) * d, e0, T) * 1000000)}});
    }
    h.ev({{"op", "none"}, {"p", std::llround(occupation_probability_non_gate_based(energy_distribution{}, 10.0))}, {"q", std::llround(occupation_probability_gate_based({}, 10.0))}});
    h.close();
}

int main(int argc, char** argv)
{
    vp::init(argc, argv);
    vp::Rng r{vp::seed * 181 + 19};
    using siqad100 = sidb_100_cell_clk_lyt_siqad;
    using offset111 = sidb_111_cell_clk_lyt;
    if (vp::is_mode("surface"))
        for (int i = 0, n = vp::thorough ? 400 : 100; i < n; ++i)
        {
            surface<siqad100>(r), surface<siqad100>(r);
            surface<sidb_cell_clk_lyt>(r);
            surface<offset111>(r);
            surface<sidb_defect_surface<siqad100>>(r);
        }
    if (vp::is_mode("engines"))
        for (int i = 0, n = vp::thorough ? 150 : 40; i < n; ++i)
        {
            engines<siqad100>(r), engines<siqad100>(r);
            engines<sidb_cell_clk_lyt_siqad>(r);
            engines<offset111>(r);
            engines<sidb_defect_surface<siqad100>>(r);
        }
    if (vp::is_mode("threads"))  // to be run under the thread sanitizer
        for (int i = 0, n = vp::thorough ? 20 : 5; i < n; ++i)
        {
            System<siqad100> s{};
            s.p = random_params(r, 2), s.sites = scatter<siqad100>(r, static_cast<int>(r.in(3, 6)));
            s.sort();
            quicksim_params q{};
            q.simulation_parameters = s.p, q.iteration_steps = 24, q.number_threads = 4;
            vp::History h{"engine", {{"S", s.S()}}};
            vp::note("quicksim with several threads");
            const auto res = quicksim(build(s), q);
            h.ev({{"op", "quicksim"}, {"some", res.has_value()}, {"b", 2}, {"got", res ? results(res->charge_distributions, s) : J::array()}});
            h.close();
        }
    if (vp::is_mode("derived"))
        for (int i = 0, n = vp::thorough ? 300 : 60; i < n; ++i)
        {
            derived<siqad100>(r), derived<siqad100>(r);
            derived<sidb_cell_clk_lyt_siqad>(r);
            derived<offset111>(r);
            derived<sidb_defect_surface<siqad100>>(r);
            boltzmann(r);
        }
    return vp::finish();
}
