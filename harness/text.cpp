// C18: dates, times and datetimes as text.  src/types.cpp itself is compiled here.
#include "vc.hpp"
#include <ostream>
#include <string>
#include <vector>
#include "types.cpp"
using namespace boost::gregorian;
using namespace boost::posix_time;
using cppsas7bdat::to_string;

// the expected text
struct Text {
  char c[48];
  unsigned n = 0;
  void put(char x) { c[n++] = x; }
  void two(uint64_t v) { put('0' + (v / 10) % 10), put('0' + v % 10); }
  void date(cppsas7bdat::DATE d) {
    const uint64_t y = d.year();
    put('0' + (y / 1000) % 10), put('0' + (y / 100) % 10), put('0' + (y / 10) % 10), put('0' + y % 10);
    put('-'), two(d.month()), put('-'), two(d.day());
  }
  void time(cppsas7bdat::TIME t) {
    const uint64_t h = t.hours(), f = t.fractional_seconds();
    // hours: at least two digits, as many as needed
    if (h >= 1000000000) put('0' + (h / 1000000000) % 10);
    if (h >= 100000000) put('0' + (h / 100000000) % 10);
    if (h >= 10000000) put('0' + (h / 10000000) % 10);
    if (h >= 1000000) put('0' + (h / 1000000) % 10);
    if (h >= 100000) put('0' + (h / 100000) % 10);
    if (h >= 10000) put('0' + (h / 10000) % 10);
    if (h >= 1000) put('0' + (h / 1000) % 10);
    if (h >= 100) put('0' + (h / 100) % 10);
    two(h);
    put(':'), two(t.minutes()), put(':'), two(t.seconds());
    if (f) {
      put('.');
      for (uint64_t d = 100000; d; d /= 10) put('0' + (f / d) % 10);
    }
  }
};
static void same(const std::string &s, const Text &t, const char *) {
  vc_assert(s.size() == t.n, "length of the text");
  vc_assert_mem_eq(s.data(), t.c, t.n, "bytes of the text");
}

extern "C" void proof_date_text() {
  const uint32_t n = vc_u32("day number");
  vc_assume(n >= DAY_MIN && n <= DAY_MAX);
  const cppsas7bdat::DATE d{date::raw{}, n};
  Text t;
  t.date(d);
  same(to_string(d), t, "date");
  vc_reach("date");
}
extern "C" void proof_time_text() {
  const int64_t x = vc_u64("microseconds");
  vc_assume(x >= 0 && x < INT64_MAX - 1);
  Text t;
  t.time(cppsas7bdat::TIME(x));
  same(to_string(cppsas7bdat::TIME(x)), t, "time");
  vc_reach("time");
}
extern "C" void proof_negative_time_text() {
  const int64_t x = vc_u64("microseconds");
  vc_assume(x > 0 && x < INT64_MAX - 1);
  Text t;
  t.put('-');
  t.time(cppsas7bdat::TIME(x));
  same(to_string(cppsas7bdat::TIME(-x)), t, "time");
  vc_reach("negative time");
}
extern "C" void proof_datetime_text() {
  const int64_t x = vc_u64("microseconds");
  vc_assume(x >= int64_t(DAY_MIN) * T_DAY && x < int64_t(DAY_MAX + 1) * T_DAY);
  const cppsas7bdat::DATETIME d{ptime::raw{}, x};
  Text t;
  t.date(d.date());
  t.put(' ');
  t.time(d.time_of_day());
  same(to_string(d), t, "datetime");
  vc_reach("datetime");
}
// special values: a time has a name, dates and datetimes are refused
extern "C" void proof_special_text() {
  const uint8_t k = vc_u8("which");
  vc_assume(k < 3);
  const special_values v = k == 0 ? not_a_date_time : k == 1 ? pos_infin : neg_infin;
  const std::string s = to_string(cppsas7bdat::TIME(v));
  const char *want = k == 0 ? "not-a-date-time" : k == 1 ? "+infinity" : "-infinity";
  vc_assert(s == want, "name of a special time");
  bool thrown = false;
  try {
    to_string(cppsas7bdat::DATE(v));
  } catch (...) {
    thrown = true;
  }
  vc_assert(thrown, "a special date has no text");
  thrown = false;
  try {
    to_string(cppsas7bdat::DATETIME(v));
  } catch (...) {
    thrown = true;
  }
  vc_assert(thrown, "a special datetime has no text");
  vc_reach("special");
}
