#pragma once
#include <bill/sat/bill.hpp>
