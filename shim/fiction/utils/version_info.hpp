// Stand-in for the header CMake generates from version_info.hpp.in
#pragma once
namespace fiction
{
inline constexpr const char* FICTION_VERSION = "fiction vVERIF";
inline constexpr const char* FICTION_REPO    = "https://github.com/cda-tum/fiction";
inline constexpr const char* COMPILED_DATE   = "Jan 01 2000";
inline constexpr const char* COMPILED_TIME   = "00:00:00";
}  // namespace fiction
