#pragma once
#include "vp_strash.hpp"
