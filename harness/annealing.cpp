// Conformance driver for simulated_annealing / multi_simulated_annealing.
#include "vp.hpp"

#include <fiction/algorithms/optimization/simulated_annealing.hpp>

#include <atomic>
#include <functional>
#include <mutex>

using namespace fiction;
using vp::J;

constexpr int UNIT = 4;  // trace unit: a quarter

template <class CostT>
void single(vp::Rng& g)
{
    const int           m = static_cast<int>(g.in(2, 12));
    std::vector<CostT>  table(m);
    const int           spread = static_cast<int>(g.pick(std::vector<int>{2, 10, 60, 200}));
    for (auto& c : table)
    {
        c = static_cast<CostT>(g.in(-spread, spread));
        if (std::is_floating_point_v<CostT> && g.chance(50)) c += static_cast<CostT>(0.25);
    }
    const double T0 = static_cast<double>(g.in(0, 40)) / 2.0, Tf = g.chance(70) ? 0.0 : static_cast<double>(g.in(0, 12)) / 2.0;
    const size_t cycles = g.chance(10) ? 0 : g.below(7);
    const int    s0     = static_cast<int>(g.below(static_cast<uint64_t>(m)));
    const auto   q      = [](double x) { return static_cast<int64_t>(std::llround(x * UNIT)); };
    vp::History  h{"run", {{"T0", q(T0)}, {"Tf", q(Tf)}, {"cycles", cycles}, {"s", s0}, {"c", q(static_cast<double>(table[s0]))}}};
    int          calls = 0;
    const int    mode  = static_cast<int>(g.below(3));
    const auto   cost  = [&](const int s) -> CostT { return table[s]; };
    const auto   next  = [&](const int s) -> int
    {
        const int n = static_cast<int>(g.below(static_cast<uint64_t>(m)));
        h.ev({{"op", "next"}, {"cur", s}, {"new", n}, {"c", q(static_cast<double>(table[n]))}});
        return n;
    };
    const auto sched = [&](const double t) -> double
    {
        double r = mode == 0 ? t - 2.5 : mode == 1 ? std::floor(t * 2.0) / 4.0 : (calls < 3 ? t + 3.0 : t - 4.0);
        if (++calls > 60) r = -100.0;
        h.ev({{"op", "sched"}, {"t", q(t)}, {"r", q(r)}});
        return r;
    };
    vp::note("simulated_annealing");
    const auto [bs, bc] = simulated_annealing(s0, T0, Tf, cycles, cost, sched, next);
    h.ev({{"op", "result"}, {"s", bs}, {"c", q(static_cast<double>(bc))}});
    h.close();
}

// several annealing threads; every thread records its own run
struct Rec
{
    J          init;
    std::vector<J> ev;
    int        s0 = 0;
};
thread_local Rec* tl = nullptr;

void multi(vp::Rng& g, size_t instances)
{
    const int            m = static_cast<int>(g.in(3, 20));
    std::vector<int64_t> table(m);
    for (auto& c : table) c = g.in(-30, 30);
    const double                      T0 = static_cast<double>(g.in(1, 12)), Tf = 0.0;
    const size_t                      cycles = 1 + g.below(5);
    std::mutex                        mu;
    std::vector<std::unique_ptr<Rec>> recs;
    const uint64_t                    base = g.next();
    std::atomic<uint64_t>             ctr{0};
    thread_local std::unique_ptr<vp::Rng> rng;
    const auto rand_state = [&]() -> int
    {
        auto rec   = std::make_unique<Rec>();
        tl         = rec.get();
        rng        = std::make_unique<vp::Rng>(base + ctr++);
        rec->s0    = static_cast<int>(rng->below(static_cast<uint64_t>(m)));
        rec->init  = {{"T0", static_cast<int>(T0)}, {"Tf", 0}, {"cycles", cycles}, {"s", rec->s0}, {"c", table[rec->s0]}};
        const int s = rec->s0;
        std::lock_guard<std::mutex> l(mu);
        recs.push_back(std::move(rec));
        return s;
    };
    const auto cost = [&](const int s) -> int64_t { return table[s]; };
    const auto next = [&](const int s) -> int
    {
        const int n = static_cast<int>(rng->below(static_cast<uint64_t>(m)));
        tl->ev.push_back({{"op", "next"}, {"cur", s}, {"new", n}, {"c", table[n]}});
        return n;
    };
    const auto sched = [&](const double t) -> double
    {
        tl->ev.push_back({{"op", "sched"}, {"t", static_cast<int>(t)}, {"r", static_cast<int>(t - 1.0)}});
        return t - 1.0;
    };
    vp::note("multi_simulated_annealing");
    const auto [bs, bc] = multi_simulated_annealing(T0, Tf, cycles, instances, rand_state, cost, sched, next);
    J costs = J::array();
    for (auto& r : recs)
    {
        vp::History h{"run", r->init};
        costs.push_back(table[r->s0]);
        for (auto& e : r->ev)
        {
            if (e["op"] == "next") costs.push_back(e["c"]);
            h.ev(e);
        }
        h.ev({{"op", "end"}});
        h.close();
    }
    vp::History h{"multi"};
    h.ev({{"op", "multi"}, {"instances", instances}, {"started", recs.size()}, {"c", bc}, {"cost_of_s", table[bs]}, {"costs", costs}});
    h.close();
}

void acceptance()
{
    vp::History h{"stat"};
    for (const int ratio : {1, 5, 10, 20, 30})
    {
        const int n = 20000;
        int       from0 = 0, acc = 0, left = 2 * n;
        bool      pend = false;
        const auto cost = [&](const int s) -> double { return s == 0 ? 5.0 : 5.0 + ratio; };
        const auto next = [&](const int s) -> int
        {
            if (pend)
            {
                ++from0;
                if (s == 1) ++acc;
                pend = false;
            }
            if (s == 0)
            {
                pend = true;
                return 1;
            }
            return 0;
        };
        const auto sched = [&](const double t) -> double { return --left > 0 && from0 < n ? t : 0.0; };
        simulated_annealing(0, 10.0, 1.0, 1, cost, sched, next);
        h.ev({{"op", "accept"}, {"ratio", ratio}, {"n", from0}, {"acc", acc}});
    }
    for (int t = 1; t < 2000; t += 13)
    {
        const double d = t * 0.5;
        h.ev({{"op", "linear"}, {"t", static_cast<int64_t>(t * 500)}, {"r", static_cast<int64_t>(std::llround(linear_temperature_schedule(d) * 1000))}});
        h.ev({{"op", "geometric"}, {"t", static_cast<int64_t>(t * 500)}, {"r", static_cast<int64_t>(std::llround(geometric_temperature_schedule(d) * 1000))}});
    }
    h.close();
}

int main(int argc, char** argv)
{
    vp::init(argc, argv);
    vp::Rng   g{vp::seed};
    const int k = vp::thorough ? 20 : 1;
    if (vp::is_mode("single"))
    {
        for (int i = 0; i < 500 * k; ++i) single<int>(g);
        for (int i = 0; i < 300 * k; ++i) single<double>(g);
        for (int i = 0; i < 150 * k; ++i) single<int64_t>(g);
        acceptance();
    }
    if (vp::is_mode("multi"))
        for (int i = 0; i < 60 * k; ++i) multi(g, 1 + g.below(8));
    return vp::finish();
}
