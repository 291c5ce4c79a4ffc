// the real headers needed by the cell formatters
#pragma once
#include <cmath>
#include <string>
#include <string_view>
#include <vector>
#include <cstring>
#include <cppsas7bdat/types.hpp>
#include <cppsas7bdat/column.hpp>
#include <spdlog/spdlog.h>
#include <fmt/core.h>
#include "debug.hpp"
#include "types.hpp"
#include "formatters.hpp"
