// C10: conversion of SAS numbers to dates, times and datetimes.
#include "vc.hpp"
#include "units/types_only.hpp"
using namespace cppsas7bdat;
using namespace cppsas7bdat::INTERNAL;
using namespace cppsas7bdat::INTERNAL::FORMATTER;
using namespace boost::gregorian;
using namespace boost::posix_time;

static constexpr double MIN_DAY = double(DAY_MIN) - double(DAY_1960), MAX_DAY = double(DAY_MAX) - double(DAY_1960);
static constexpr double MIN_S = MIN_DAY * 86400.0, END_S = (MAX_DAY + 1) * 86400.0;
static constexpr int64_t EPOCH = int64_t(DAY_1960) * T_DAY;

extern "C" void proof_datetime() {
  const double s = vc_f64("seconds");
  const DATETIME x = get_datetime_from_epoch(s);
  if (std::isnan(s)) {
    vc_assert(x.t == T_NADT, "a missing value is not a datetime");
    vc_reach("missing");
    return;
  }
  if (s >= MIN_S && s <= END_S - 1e-3) {
    vc_assert(!x.is_special(), "every instant of the calendar is a datetime");
    vc_assert(vc_near(x.t - EPOCH, s, 1e6, 0.50001), "a datetime is the instant, to the microsecond");
    vc_reach("datetime");
  } else if (!(s > MIN_S - 1e-3 && s < END_S)) {
    vc_assert(x.t == T_NADT, "an instant outside the calendar is not a datetime");
    vc_reach("outside");
  }
}

extern "C" void proof_whole_seconds() {
  const double s = vc_f64_int("seconds");
  vc_assume(s >= MIN_S && s < END_S);
  const DATETIME x = get_datetime_from_epoch(s);
  vc_assert(!x.is_special(), "every whole second of the calendar is a datetime");
  vc_assert(vc_near(x.t - EPOCH, s, 1e6, 0), "whole seconds are exact");
  vc_reach("whole seconds");
}

extern "C" void proof_date() {
  const double d = vc_f64("days");
  const DATE x = get_date_from_epoch(d);
  if (std::isnan(d)) {
    vc_assert(x.n == DAY_NADT, "a missing value is not a date");
    vc_reach("missing");
    return;
  }
  if (d > MIN_DAY - 0.5 && d < MAX_DAY + 0.5) {
    vc_assert(!x.is_special(), "every day of the calendar is a date");
    vc_assert(vc_near(int64_t(x.n) - int64_t(DAY_1960), d, 1, 0.5), "a date is the nearest day");
    vc_reach("date");
  } else if (!(d >= MIN_DAY - 0.5 && d <= MAX_DAY + 0.5)) {
    vc_assert(x.n == DAY_NADT, "a day outside the calendar is not a date");
    vc_reach("outside");
  }
}

extern "C" void proof_time() {
  const double s = vc_f64("seconds");
  const DATETIME x = get_datetime_from_epoch(s);
  const TIME t = get_time_from_epoch(s);
  if (x.is_special())
    vc_assert(t.t == T_NADT, "the time of a missing value is missing");
  else {
    vc_assert(t.t >= 0 && t.t < T_DAY, "a time is a time of day");
    vc_assert((x.t - t.t) % T_DAY == 0, "a time is the time of day of the instant");
  }
  vc_reach("time");
}

// the formatters convert the number stored in the cell, whatever its width
template <Endian E, unsigned n> static void cells() {
  const uint64_t len = vc_u64("row_length"), off = vc_u64("offset");
  vc_assume(n <= len);
  vc_assume(off <= len - n);
  vc_assume(len < (1ull << 48));
  const uint8_t *p = vc_bytes("row", len);
  DoubleFormatter<E> v(off, n);
  const double d = v.get_number(p);
  DateTimeFormatter<E> a(off, n);
  DateFormatter<E> b(off, n);
  TimeFormatter<E> c(off, n);
  vc_assert(a.type == Column::Type::datetime && b.type == Column::Type::date && c.type == Column::Type::time, "types of the formatters");
  vc_assert(a.get_datetime(p) == get_datetime_from_epoch(d), "a datetime cell converts its number");
  vc_assert(b.get_date(p) == get_date_from_epoch(d), "a date cell converts its number");
  vc_assert(c.get_time(p) == get_time_from_epoch(d), "a time cell converts its number");
  vc_reach("cells");
}
template <Endian E> static void all() {
  switch (vc_u8("width")) {
  case 3: return cells<E, 3>();
  case 4: return cells<E, 4>();
  case 5: return cells<E, 5>();
  case 6: return cells<E, 6>();
  case 7: return cells<E, 7>();
  case 8: return cells<E, 8>();
  default: return;
  }
}
extern "C" void proof_cells_le() { all<Endian::little>(); }
extern "C" void proof_cells_be() { all<Endian::big>(); }
