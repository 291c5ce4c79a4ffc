// C08 C10: which formats make a number a datetime, a date or a time.  src/metadata.hpp
#include "vc.hpp"
#include "units/reader_all.hpp"
using namespace cppsas7bdat;
using namespace cppsas7bdat::INTERNAL;

struct Src {};
using Meta = READ_METADATA<Src, Endian::little, Format::bit64>;
// the formats of SAS for datetimes, dates and times
static const char *const of_datetime[] = {"DATETIME", "DTWKDATX", "B8601DN", "B8601DT", "B8601DX", "B8601DZ", "B8601LX", "E8601DN", "E8601DT", "E8601DX", "E8601DZ", "E8601LX", "DATEAMPM", "DTDATE", "DTMONYY", "DTYEAR", "TOD", "MDYAMPM"};
static const char *const of_date[] = {"DATE", "DAY", "DDMMYY", "DOWNAME", "JULDAY", "JULIAN", "MMDDYY", "MMYY", "MMYYC", "MMYYD", "MMYYP", "MMYYS", "MMYYN", "MONNAME", "MONTH", "MONYY", "QTR", "QTRR", "NENGO", "WEEKDATE", "WEEKDATX", "WEEKDAY", "WEEKV", "WORDDATE", "WORDDATX", "YEAR", "YYMM", "YYMMC", "YYMMD", "YYMMP", "YYMMS", "YYMMN", "YYMON", "YYMMDD", "YYQ", "YYQC", "YYQD", "YYQP", "YYQS", "YYQN", "YYQR", "YYQRC", "YYQRD", "YYQRP", "YYQRS", "YYQRN", "YYMMDDP", "YYMMDDC", "E8601DA", "YYMMDDN", "MMDDYYC", "MMDDYYS", "MMDDYYD", "YYMMDDS", "B8601DA", "DDMMYYN", "YYMMDDD", "DDMMYYB", "DDMMYYP", "MMDDYYP", "YYMMDDB", "MMDDYYN", "DDMMYYC", "DDMMYYD", "DDMMYYS", "MINGUO"};
static const char *const of_time[] = {"TIME"};
template <size_t k> static bool listed(const char *const (&list)[k], const uint8_t *p, uint64_t n) {
  bool in = false;
  for (const char *q : list) {
    if (__builtin_strlen(q) != n) continue;
    bool same = true;
    for (uint64_t i = 0; i < n; ++i) same = same & (p[i] == uint8_t(q[i]));
    in = in | same;
  }
  return in;
}
template <uint64_t n> static void format() {
  const uint8_t *const p = vc_bytes("format", n);
  const std::string_view f(reinterpret_cast<const char *>(p), n);
  vc_unroll(200);
  const bool a = listed(of_datetime, p, n), b = listed(of_date, p, n), c = listed(of_time, p, n);
  vc_assert(!(a & b) && !(a & c) && !(b & c), "the lists have nothing in common");
  vc_assert(Meta::is_datetime_format(f) == a, "datetime formats");
  vc_assert(Meta::is_date_format(f) == b, "date formats");
  vc_assert(Meta::is_time_format(f) == c, "time formats");
  vc_reach("format");
}
// longer than any of them
extern "C" void proof_format_long() {
  const uint64_t n = vc_u64("length");
  vc_assume(n > 10 && n < 65536);
  const std::string_view f(reinterpret_cast<const char *>(vc_bytes("format", n)), n);
  vc_assert(!Meta::is_datetime_format(f) && !Meta::is_date_format(f) && !Meta::is_time_format(f), "no such format");
  vc_reach("long");
}
#define P(n) extern "C" void proof_format_##n() { format<n>(); }
P(0) P(1) P(2) P(3) P(4) P(5) P(6) P(7) P(8) P(9) P(10)
