// fmt 9 lacks fmt::format(text_style, runtime format string), which fiction (written for a newer fmt) uses.
#pragma once
#include_next <fmt/color.h>
#include <string>
namespace fmt
{
template <typename... T>
std::string format(const text_style& ts, basic_runtime<char> f, const T&... args)
{
    return fmt::vformat(ts, f.str, fmt::make_format_args(args...));
}
}  // namespace fmt
