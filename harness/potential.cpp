// Conformance driver: potential -> distance conversion.
#include "vp.hpp"

#include <fiction/algorithms/simulation/sidb/potential_to_distance_conversion.hpp>

#include <cmath>
#include <sstream>

using vp::J;

int main(int argc, char** argv)
{
    vp::init(argc, argv);
    vp::Rng g{vp::seed};

    const double   eps[3] = {5.6, 4.1, 6.2}, lam[3] = {5.0, 1.8, 8.0};
    const uint64_t len[4] = {25, 160, 1200, 2500};

    const int rounds = vp::thorough ? 200 : 12;
    for (int s = 0; s < 3; ++s)
        for (uint64_t p = 0; p < 4; ++p)
        {
            vp::History h{"potential", J::object({{"s", s}})};
            for (int k = 0; k < rounds; ++k)
            {
                // choose a distance between two neighbouring grid points; the request is the (independently computed)
                // potential there, in units of 100 nV, so that no grid point is closer to the request than rounding
                fiction::sidb_simulation_parameters prm{2, -0.32, eps[s], lam[s]};
                const auto                          pot = [&](double d)
                { return 1.602176634e-19 / (4 * M_PI * 8.8541878128e-12 * eps[s]) / (d * 1e-9) * std::exp(-d / lam[s]); };
                const double  step = std::pow(10.0, -static_cast<double>(p));
                const int64_t idx  = k == 0 ? 0 : static_cast<int64_t>(g.below(len[p] - 1));
                const double  d    = (static_cast<double>(idx) + 0.2 + 0.6 * g.unit()) * step;
                const int64_t q    = std::llround(pot(d) * 1e7);
                if (q >= 1900000000 || q < 3) continue;
                // leave requests out that tie with a grid point at this resolution
                const double  lo = pot(static_cast<double>(idx + 1) * step) * 1e7, hi = idx == 0 ? 1e18 : pot(static_cast<double>(idx) * step) * 1e7;
                if (static_cast<double>(q) - lo < 2 || hi - static_cast<double>(q) < 2) continue;
                vp::note("potential_to_distance_conversion");
                const double r = (s == 0 && p == 2 && g.chance(50)) ?
                                     fiction::potential_to_distance_conversion(static_cast<double>(q) * 1e-7) :
                                     fiction::potential_to_distance_conversion(static_cast<double>(q) * 1e-7, prm, p);
                const int64_t n = std::llround(r / step);
                h.ev({{"op", "convert"}, {"s", s}, {"p", p}, {"q", q}, {"n", n},
                      {"ongrid", std::abs(r - static_cast<double>(n) * step) < 1e-6 * step + 1e-9}});
            }
            h.close();
        }
    return vp::finish();
}
