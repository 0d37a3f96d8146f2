#pragma once
#include "vp_phmap.hpp"
