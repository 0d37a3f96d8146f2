#pragma once
#include <kitty/kitty.hpp>
