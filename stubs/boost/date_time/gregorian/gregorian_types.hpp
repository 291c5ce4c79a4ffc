// contract stub of boost::gregorian (day numbers), boost 1.83 representation
#pragma once
#include <cstdint>
#include <string>
#include <compare>
#include <vc.hpp>
namespace boost {
namespace date_time {
enum special_values { not_a_date_time, neg_infin, pos_infin, min_date_time, max_date_time, not_special };
}
namespace gregorian {
using date_time::special_values;
using date_time::not_a_date_time;
using date_time::neg_infin;
using date_time::pos_infin;
using date_time::min_date_time;
using date_time::max_date_time;
// first day number 1400-01-01, last 9999-12-31
constexpr uint32_t DAY_MIN = 2232400u, DAY_MAX = 5373484u, DAY_1960 = 2436935u;
constexpr uint32_t DAY_POS_INF = 0xffffffffu, DAY_NEG_INF = 0u, DAY_NADT = 0xfffffffeu;
struct days {
  long d;
  explicit days(long x) : d(x) {}
};
struct ymd_part {
  uint32_t v;
  operator uint32_t() const { return v; }
};
struct date {
  uint32_t n;
  date() : n(DAY_NADT) {}
  date(special_values s)
      : n(s == not_a_date_time ? DAY_NADT : s == pos_infin ? DAY_POS_INF : s == neg_infin ? DAY_NEG_INF : s == min_date_time ? DAY_MIN : DAY_MAX) {}
  date(int y, int m, int d) : n(DAY_1960) {
    // only the epoch is ever constructed from year, month and day
    if (!(y == 1960 && m == 1 && d == 1)) n = fail();
  }
  static uint32_t fail();
  struct raw {};
  date(raw, uint32_t x) : n(x) {}
  bool is_special() const { return n == DAY_NADT || n == DAY_POS_INF || n == DAY_NEG_INF; }
  // the calendar itself is boost's: an unspecified function of the day number; the parts
  // of a special value raise an exception
  uint32_t part(const char *name, uint32_t lo, uint32_t hi) const {
    if (is_special()) vc_throw();
    const uint64_t v = vc_uf1(name, n);
    vc_assume(v >= lo && v <= hi);
    return uint32_t(v);
  }
  ymd_part year() const { return {part("calendar year", 1400, 9999)}; }
  ymd_part month() const { return {part("calendar month", 1, 12)}; }
  ymd_part day() const { return {part("calendar day", 1, 31)}; }
  bool operator==(const date &o) const { return n == o.n; }
  bool operator<(const date &o) const { return n < o.n; }
  bool operator>(const date &o) const { return n > o.n; }
  bool operator<=(const date &o) const { return n <= o.n; }
  bool operator>=(const date &o) const { return n >= o.n; }
};
std::string to_iso_extended_string(date);
std::string to_simple_string(date);
} // namespace gregorian
} // namespace boost
