// Stand-in for mockturtle/utils/stopwatch.hpp
#pragma once
#include <chrono>
#include <utility>
#include <type_traits>
namespace mockturtle
{
template <class Clock = std::chrono::steady_clock>
class stopwatch
{
  public:
    using clock      = Clock;
    using duration   = typename Clock::duration;
    using time_point = typename Clock::time_point;
    explicit stopwatch(duration& d) : dur(d), beg(clock::now()) {}
    ~stopwatch() { dur += clock::now() - beg; }

  private:
    duration&  dur;
    time_point beg;
};
template <class Fn, class Clock = std::chrono::steady_clock>
std::invoke_result_t<Fn> call_with_stopwatch(typename Clock::duration& d, Fn&& fn)
{
    stopwatch<Clock> t(d);
    return fn();
}
template <class Duration>
inline double to_seconds(Duration const& d) { return std::chrono::duration_cast<std::chrono::duration<double>>(d).count(); }
}  // namespace mockturtle
