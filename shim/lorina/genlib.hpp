#pragma once
#include <lorina/lorina.hpp>
