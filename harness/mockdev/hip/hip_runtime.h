#pragma once
#include "../intrinsics.hpp"
