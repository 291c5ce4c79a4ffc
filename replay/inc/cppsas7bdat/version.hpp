// Stand-in for the header the build generates from version.hpp.in (same names).
#ifndef _CPP_SAS7BDAT_VERSION_HPP_
#define _CPP_SAS7BDAT_VERSION_HPP_
#define CPPSAS7BDAT_VERSION_MAJOR 1
#define CPPSAS7BDAT_VERSION_MINOR 0
#define CPPSAS7BDAT_VERSION_PATCH 1
#define CPPSAS7BDAT_VERSION_TWEAK
#define CPPSAS7BDAT_VERSION "1.0.1"
#include <string>
namespace cppsas7bdat {
  std::string getVersion();
}
#endif
