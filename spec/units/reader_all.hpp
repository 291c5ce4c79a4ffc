// the real reader headers
#pragma once
#include <any>
#include <cmath>
#include <string>
#include <string_view>
#include <vector>
#include <cstring>
#include <algorithm>
#include <cppsas7bdat/types.hpp>
#include <cppsas7bdat/column.hpp>
#include "sas7bdat-impl.hpp"
