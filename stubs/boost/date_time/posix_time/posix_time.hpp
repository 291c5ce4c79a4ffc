// contract stub of boost::posix_time (microsecond ticks), boost 1.83 representation
#pragma once
#include <boost/date_time/gregorian/gregorian_types.hpp>
#include <vc.hpp>
namespace boost {
namespace posix_time {
using date_time::special_values;
using date_time::not_a_date_time;
using date_time::neg_infin;
using date_time::pos_infin;
using date_time::min_date_time;
using date_time::max_date_time;
constexpr int64_t T_POS_INF = INT64_MAX, T_NEG_INF = INT64_MIN, T_NADT = INT64_MAX - 1;
constexpr int64_t T_DAY = 86400000000LL;
inline bool t_special(int64_t t) { return (t == T_POS_INF) | (t == T_NEG_INF) | (t == T_NADT); }
struct time_duration {
  int64_t t;
  time_duration() : t(0) {}
  explicit time_duration(int64_t x) : t(x) {}
  time_duration(special_values s)
      : t(s == not_a_date_time ? T_NADT : s == pos_infin ? T_POS_INF : T_NEG_INF) {}
  bool is_special() const { return t_special(t); }
  bool is_negative() const { return t < 0; }
  time_duration invert_sign() const { return time_duration(-t); }
  // t = hours * 3600 s + minutes * 60 s + seconds + fraction, all parts with the sign of t
  int64_t part(int which) const {
    if (t < 0) return -part(which, -t);
    return part(which, t);
  }
  static int64_t part(int which, int64_t a) {
    const int64_t h = vc_uf1("hours of", a), m = vc_uf1("minutes of", a), s = vc_uf1("seconds of", a), f = vc_uf1("fraction of", a);
    vc_assume(h >= 0 && h <= INT64_MAX / 3600000000LL && m >= 0 && m < 60 && s >= 0 && s < 60 && f >= 0 && f < 1000000);
    vc_assume(a >= T_DAY || h < 24);
    const int64_t v = which == 0 ? h : which == 1 ? m : which == 2 ? s : f;
    return v;
  }
  int64_t fractional_seconds() const { return part(3); }
  int64_t hours() const { return part(0); }
  int64_t minutes() const { return part(1); }
  int64_t seconds() const { return part(2); }
  int64_t ticks() const { return t; }
  bool operator==(const time_duration &o) const { return t == o.t; }
};
struct seconds : time_duration { explicit seconds(long s) : time_duration(int64_t(s) * 1000000) {} };
struct microseconds : time_duration { explicit microseconds(long s) : time_duration(int64_t(s)) {} };
struct ptime {
  int64_t t;
  ptime() : t(T_NADT) {}
  struct raw {};
  ptime(raw, int64_t x) : t(x) {}
  explicit ptime(gregorian::date d) : ptime(d, time_duration()) {}
  ptime(gregorian::date d, time_duration td) {
    using namespace gregorian;
    if (d.is_special() || td.is_special()) {
      // special values dominate (not_a_date_time first)
      if (d.n == DAY_NADT || td.t == T_NADT) t = T_NADT;
      else if (d.is_special() && td.is_special()) t = (d.n == DAY_POS_INF) == (td.t == T_POS_INF) ? td.t : T_NADT;
      else if (d.is_special()) t = d.n == DAY_POS_INF ? T_POS_INF : T_NEG_INF;
      else t = td.t;
    } else
      t = int64_t(d.n) * T_DAY + td.t;
  }
  ptime(special_values s)
      : t(s == not_a_date_time ? T_NADT : s == pos_infin ? T_POS_INF : s == neg_infin ? T_NEG_INF
          : s == min_date_time ? int64_t(gregorian::DAY_MIN) * T_DAY : int64_t(gregorian::DAY_MAX) * T_DAY + (T_DAY - 1)) {}
  bool is_special() const { return t_special(t); }
  // date() of an out of range ordinary value raises an exception in boost
  gregorian::date date() const {
    using namespace gregorian;
    if (t == T_NADT) return gregorian::date(not_a_date_time);
    if (t == T_POS_INF) return gregorian::date(pos_infin);
    if (t == T_NEG_INF) return gregorian::date(neg_infin);
    vc_assert(t >= int64_t(DAY_MIN) * T_DAY && t < int64_t(DAY_MAX + 1) * T_DAY, "the date of an instant outside the calendar is never taken");
    return gregorian::date(gregorian::date::raw{}, uint32_t(t / T_DAY));
  }
  time_duration time_of_day() const { return is_special() ? time_duration(t) : time_duration(t % T_DAY); }
  bool operator==(const ptime &o) const { return t == o.t; }
  bool operator<(const ptime &o) const { return t < o.t; }
  bool operator>(const ptime &o) const { return t > o.t; }
  bool operator<=(const ptime &o) const { return t <= o.t; }
  bool operator>=(const ptime &o) const { return t >= o.t; }
};
inline ptime operator+(ptime p, gregorian::days d) { return p.is_special() ? p : ptime(ptime::raw{}, p.t + int64_t(d.d) * T_DAY); }
inline ptime operator+(ptime p, time_duration d) { return p.is_special() ? p : ptime(ptime::raw{}, p.t + d.t); }
std::string to_iso_extended_string(ptime);
// special values only
inline std::string to_simple_string(time_duration d) {
  vc_assert(d.is_special(), "boost's own rendering is used for special values only");
  return d.t == T_NADT ? "not-a-date-time" : d.t == T_POS_INF ? "+infinity" : "-infinity";
}
std::string to_simple_string(ptime);
} // namespace posix_time
using posix_time::ptime;
} // namespace boost
