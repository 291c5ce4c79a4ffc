// Random SAS7BDAT files together with what a reader must report for them.
// Everything expected is computed from the model that is written to the file,
// never by looking at the reader.
#pragma once
#include <algorithm>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <map>
#include <string>
#include <vector>
#define VC_NATIVE
#include "../spec/rle.hpp"

namespace gen {
using u8 = uint8_t;
using u64 = uint64_t;
using Bytes = std::vector<u8>;

struct Rng {
  u64 s;
  explicit Rng(u64 seed) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) {}
  u64 next() {
    u64 z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  u64 below(u64 n) { return n ? next() % n : 0; }
  u64 range(u64 a, u64 b) { return a + below(b - a + 1); }
  bool chance(int pct) { return below(100) < u64(pct); }
  template <class T> const T &pick(const std::vector<T> &v) { return v[below(v.size())]; }
};

inline bool is_space(u8 c) { return c == 32 || (c >= 9 && c <= 13); }
inline bool is_cntrl(u8 c) { return c < 32 || c == 127; }

// header fields: leading whitespace, trailing whitespace and control bytes go
inline std::string trim_header(const std::string &s) {
  size_t a = 0, b = s.size();
  while (a < b && is_space(u8(s[a]))) ++a;
  while (b > a && (is_space(u8(s[b - 1])) || is_cntrl(u8(s[b - 1])))) --b;
  return s.substr(a, b - a);
}
// names, labels, formats: text that begins with a control byte is absent
inline std::string trim_text(const std::string &s) {
  if (s.empty() || is_cntrl(u8(s[0]))) return "";
  return trim_header(s);
}
inline std::string trim_cell(const std::string &s) {
  size_t b = s.size();
  while (b && (s[b - 1] == 0 || is_space(u8(s[b - 1])))) --b;
  return s.substr(0, b);
}

enum Kind { K_STR, K_I8, K_I16, K_NUM, K_DT, K_DATE, K_TIME, K_NONE };
enum Comp { NONE, RLE, RDC };

struct Col {
  std::string name, label, format;
  bool num = false;
  size_t len = 0, off = 0;
  Kind kind = K_STR;
};
struct Row {
  Bytes data;
  bool error = false; // reading it must be reported as an error
  bool tail = false;  // RDC only: items in the last two bytes (known finding)
  Bytes alt;          // what the known finding yields instead of data
  Bytes stream;
};
struct Pointer { size_t at; }; // position of a subheader pointer in the file
struct Case {
  bool big = false, b64 = false, a1 = false;
  Comp comp = NONE;
  // header
  std::string dataset_name, file_type, sas_release, server_type, os_type, os_name;
  u8 platform = 0, encoding = 0;
  double created = 0, modified = 0;
  size_t header_length = 0, page_length = 0, page_count = 0;
  // metadata
  size_t lcs = 0, lcp = 0, row_length = 0, row_count = 0, p1 = 0, p2 = 0, mix = 0, column_count = 0;
  std::string creator, creator_proc;
  std::vector<Col> cols;
  std::vector<Row> rows; // the rows that must be delivered
  Bytes file;
  std::vector<size_t> pages;    // offsets of the pages
  std::vector<size_t> fields;   // interesting bytes (for mutation)
  std::string note;
};

struct Opts {
  int comp = -1;           // -1 any
  int max_rows = 40;
  int max_cols = 10;
  bool bad_streams = false; // rows with invalid compressed streams
  bool mixed_streams = true;
  bool big_commands = false;
  bool unknown_cols = true;
  bool text_heavy = false, num_heavy = false, date_heavy = false;
  int date_range = 0;     // 0 any, 1 calendar only
  bool plain_names = false; // names usable as identifiers, unique
  bool plain_text = false;  // printable ASCII cells only
  bool short_file = true;   // row_count may differ from the rows present
  int force_b64 = -1, force_big = -1;
  size_t max_page = 9000;
  int pages_like = 0;       // 1: many pages and page kinds
  bool small_header = false;
  bool finite = false;      // numbers neither NaN nor infinite
  bool tails = false;       // RDC rows of the known finding allowed
};

inline const std::vector<std::string> &dt_formats() {
  static const std::vector<std::string> v = {"DATETIME", "DTWKDATX", "B8601DN", "B8601DT", "B8601DX", "B8601DZ", "B8601LX", "E8601DN", "E8601DT", "E8601DX", "E8601DZ", "E8601LX", "DATEAMPM", "DTDATE", "DTMONYY", "DTYEAR", "TOD", "MDYAMPM"};
  return v;
}
inline const std::vector<std::string> &date_formats() {
  static const std::vector<std::string> v = {"DATE", "DAY", "DDMMYY", "DOWNAME", "JULDAY", "JULIAN", "MMDDYY", "MMYY", "MMYYC", "MMYYD", "MMYYP", "MMYYS", "MMYYN", "MONNAME", "MONTH", "MONYY", "QTR", "QTRR", "NENGO", "WEEKDATE", "WEEKDATX", "WEEKDAY", "WEEKV", "WORDDATE", "WORDDATX", "YEAR", "YYMM", "YYMMC", "YYMMD", "YYMMP", "YYMMS", "YYMMN", "YYMON", "YYMMDD", "YYQ", "YYQC", "YYQD", "YYQP", "YYQS", "YYQN", "YYQR", "YYQRC", "YYQRD", "YYQRP", "YYQRS", "YYQRN", "YYMMDDP", "YYMMDDC", "E8601DA", "YYMMDDN", "MMDDYYC", "MMDDYYS", "MMDDYYD", "YYMMDDS", "B8601DA", "DDMMYYN", "YYMMDDD", "DDMMYYB", "DDMMYYP", "MMDDYYP", "YYMMDDB", "MMDDYYN", "DDMMYYC", "DDMMYYD", "DDMMYYS", "MINGUO"};
  return v;
}
inline Kind kind_of(bool num, size_t len, const std::string &f) {
  if (!num) return K_STR;
  if (len == 0 || len > 8) return K_NONE;
  if (len == 1) return K_I8;
  if (len == 2) return K_I16;
  auto in = [&](const std::vector<std::string> &v) { return std::find(v.begin(), v.end(), f) != v.end(); };
  if (in(dt_formats())) return K_DT;
  if (in(date_formats())) return K_DATE;
  if (f == "TIME") return K_TIME;
  return K_NUM;
}

// ---- independent decoding of cells
inline double cell_double(const Case &c, const Col &col, const u8 *row) {
  u64 x = 0;
  for (size_t k = 0; k < col.len; ++k) {
    const u8 v = row[col.off + (c.big ? k : col.len - 1 - k)];
    x |= u64(v) << (56 - 8 * k);
  }
  double d;
  std::memcpy(&d, &x, 8);
  return d;
}
inline int64_t cell_int(const Case &c, const Col &col, const u8 *row) {
  if (col.len == 1) return row[col.off];
  const u8 hi = row[col.off + (c.big ? 0 : 1)], lo = row[col.off + (c.big ? 1 : 0)];
  int v = hi * 256 + lo;
  return v >= 32768 ? v - 65536 : v;
}
inline std::string cell_str(const Col &col, const u8 *row) {
  return trim_cell(std::string(reinterpret_cast<const char *>(row) + col.off, col.len));
}

// ---- independent calendar (proleptic Gregorian)
struct Civil { long y; int m, d; };
inline Civil civil(long z) { // days since 1970-01-01
  z += 719468;
  const long era = (z >= 0 ? z : z - 146096) / 146097;
  const unsigned long doe = (unsigned long)(z - era * 146097);
  const unsigned long yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365;
  const unsigned long doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
  const unsigned long mp = (5 * doy + 2) / 153;
  const int d = int(doy - (153 * mp + 2) / 5 + 1), m = int(mp < 10 ? mp + 3 : mp - 9);
  return {long(yoe) + era * 400 + (m <= 2), m, d};
}
constexpr long EPOCH = -3653;                // 1960-01-01
constexpr long DAY_MIN = -208188 + 3653;     // 1400-01-01, days since 1960
constexpr long DAY_MAX = 2932896 + 3653;     // 9999-12-31
struct Instant { bool special; long days; long us; bool near_tie; };
// seconds since 1960 -> day and microsecond of the day, rounded
inline Instant instant_of_seconds(double s) {
  if (std::isnan(s) || std::isinf(s)) return {true, 0, 0, false};
  const long double x = (long double)s * 1e6L;
  if (std::fabs(x) > 1e19L / 2) return {true, 0, 0, false};
  const long double r = std::floor(x + 0.5L);
  const long double fr = x - std::floor(x);
  const bool tie = std::fabs(fr - 0.5L) < 0.02L || std::fabs(x) > 4e17L;
  const long t = (long)r;
  const long D = 86400000000L;
  long q = t / D, m = t % D;
  if (m < 0) m += D, --q;
  if (q < DAY_MIN || q > DAY_MAX) return {true, 0, 0, false};
  return {false, q, m, tie};
}
inline std::string iso_date(long days) {
  const auto c = civil(days + EPOCH);
  char b[48];
  std::snprintf(b, sizeof b, "%04ld-%02d-%02d", c.y, c.m, c.d);
  return b;
}
inline std::string iso_time(long us) {
  char b[64];
  const long s = us / 1000000, f = us % 1000000;
  if (f) std::snprintf(b, sizeof b, "%02ld:%02ld:%02ld.%06ld", s / 3600, s / 60 % 60, s % 60, f);
  else std::snprintf(b, sizeof b, "%02ld:%02ld:%02ld", s / 3600, s / 60 % 60, s % 60);
  return b;
}

// ---- writer
struct Writer {
  Rng &r;
  const Opts &o;
  Case c;
  size_t I;   // integer size
  size_t pbo; // page header offset

  Writer(Rng &_r, const Opts &_o) : r(_r), o(_o) {}

  void put(Bytes &b, size_t at, u64 v, size_t n) const {
    for (size_t k = 0; k < n; ++k) b[at + (c.big ? n - 1 - k : k)] = u8(v >> (8 * k));
  }
  void putd(Bytes &b, size_t at, double d) const {
    u64 x;
    std::memcpy(&x, &d, 8);
    put(b, at, x, 8);
  }
  Bytes noise(size_t n) {
    Bytes b(n);
    const int mode = int(r.below(3));
    for (auto &x : b) x = mode == 0 ? 0 : u8(r.next());
    return b;
  }
  // a field of n bytes for a header text
  std::string field(size_t n) {
    std::string s;
    const int mode = int(r.below(8));
    if (mode == 0) return std::string(n, r.chance(50) ? 0 : ' ');
    const size_t len = mode == 1 ? n : r.range(1, n);
    const size_t lead = r.chance(25) ? r.below(4) : 0;
    for (size_t k = 0; k < len; ++k) {
      if (k < lead) s += ' ';
      else s += char(r.chance(15) ? r.range(128, 255) : r.chance(10) && k > lead ? r.range(1, 31) : r.range(33, 126));
    }
    if (mode == 2) s[s.size() - 1] = char(r.range(128, 255));
    if (mode == 3) s[lead < s.size() ? lead : 0] = char(r.range(128, 255));
    const char pad = "\0 \0\t"[r.below(4)];
    s.resize(n, pad);
    if (pad && r.chance(30)) s[n - 1] = 0;
    return s;
  }

  void columns() {
    const size_t n = r.range(r.chance(3) ? 0 : 1, size_t(o.max_cols));
    for (size_t i = 0; i < n; ++i) {
      Col k;
      const int t = int(r.below(100));
      const int str_pct = o.text_heavy ? 70 : o.num_heavy || o.date_heavy ? 15 : 35;
      k.num = t >= str_pct;
      if (!k.num) k.len = r.chance(4) && !o.plain_text ? 0 : r.chance(70) ? r.range(1, 12) : r.range(1, 90);
      else if (o.date_heavy) k.len = r.chance(40) ? 8 : r.range(3, 8);
      else k.len = r.chance(30) ? 8 : o.unknown_cols && r.chance(6) ? (r.chance(50) ? 0 : r.range(9, 20)) : r.range(1, 8);
      // formats
      const int f = int(r.below(o.date_heavy ? 4 : 12));
      if (f == 0) k.format = r.pick(dt_formats());
      else if (f == 1) k.format = r.pick(date_formats());
      else if (f == 2) k.format = "TIME";
      else if (f == 3 && !o.date_heavy) {
        static const std::vector<std::string> near = {"DAT", "DATES", "TIMES", "date", "DATETIM", "DATETIMES", "TIM", "YYMMDDX", "BEST", "F", "$CHAR", "YY", "HHMM", "MMSS", "DTDATES", "E8601D", "TIMEAMPM", "DATE9", "Q"};
        k.format = r.pick(near);
      } else if (f == 4 && !o.date_heavy) k.format = text(8);
      if (o.date_heavy && f == 3) k.format = "";
      if (o.plain_names) {
        k.name = "c" + std::to_string(i) + std::string(1, char('a' + r.below(26)));
        k.label = "l" + std::to_string(r.below(100));
      } else {
        k.name = r.chance(4) ? std::string() : text(r.chance(85) ? 12 : 40);
        if (r.chance(8) && i) k.name = c.cols[r.below(i)].name;
        k.label = r.chance(30) ? std::string() : text(30);
      }
      k.kind = kind_of(k.num, k.len, k.format);
      if (!o.unknown_cols && k.kind == K_NONE) k.len = 8, k.kind = kind_of(true, 8, k.format);
      c.cols.push_back(k);
    }
    // offsets: laid out in a random order, with gaps, sometimes overlapping
    std::vector<size_t> order(n);
    for (size_t i = 0; i < n; ++i) order[i] = i;
    if (r.chance(50)) for (size_t i = n; i > 1; --i) std::swap(order[i - 1], order[r.below(i)]);
    size_t at = r.chance(20) ? r.below(9) : 0;
    for (size_t i : order) {
      c.cols[i].off = at;
      at += c.cols[i].len + (r.chance(15) ? r.below(5) : 0);
    }
    c.row_length = at + (r.chance(20) ? r.below(20) : 0);
    if (c.comp != NONE) c.row_length += r.range(9, o.big_commands ? (r.chance(40) ? 5000 : 300) : 60);
    if (c.row_length == 0 && r.chance(90)) c.row_length = 1;
    c.column_count = n;
  }
  // a text as it stands in the column text (already trimmed)
  std::string text(size_t max) {
    std::string s;
    const size_t n = r.range(1, max);
    for (size_t k = 0; k < n; ++k) {
      const int t = int(r.below(100));
      if (o.plain_names) s += char(r.range('a', 'z'));
      else if (t < 12) s += char(r.range(128, 255));
      else if (t < 22 && k && k + 1 < n) s += " {}%\",'\\#:"[r.below(10)];
      else if (t < 24 && k && k + 1 < n) s += char(r.range(1, 31));
      else s += char(r.range(33, 126));
    }
    return trim_text(s);
  }

  double date_number(Kind k) {
    const double span = k == K_DATE ? 1 : 86400;
    const int t = int(r.below(14));
    double days;
    switch (o.date_range == 1 ? 4 + r.below(10) : t) {
    case 0: { // missing
      u64 x = 0xFFFF000000000000ull | (u64(r.below(0x60)) << 40);
      double d;
      std::memcpy(&d, &x, 8);
      return d;
    }
    case 1: return (r.chance(50) ? 1 : -1) * std::ldexp(1.0 + double(r.below(1000)) / 1000, int(r.below(80)));
    case 2: return r.chance(50) ? INFINITY : -INFINITY;
    case 3: days = double(long(r.below(6000000)) - 3000000); break;
    case 4: days = double(DAY_MIN + long(r.below(3))); break;
    case 5: days = double(DAY_MAX - long(r.below(3))); break;
    case 6: days = -double(r.below(30)); break;
    case 7: days = double(r.below(30)); break;
    default: days = double(DAY_MIN) + double(r.below(u64(DAY_MAX - DAY_MIN))); break;
    }
    if (k == K_DATE) {
      if (r.chance(40)) days += double(long(r.below(9)) - 4) / 8.0; // fraction of a day, half included
      return days;
    }
    double s = days * span;
    const int u = int(r.below(6));
    if (u == 0) s += double(r.below(86400));
    else if (u == 1) s += double(r.below(86400)) + double(r.below(1000)) / 1000;
    else if (u == 2) s += double(r.below(86400000000ull)) / 1e6;
    else if (u == 3) s -= double(r.below(86400));
    else if (u == 4) s += 43200 + (double(r.below(5)) - 2) / 2;
    if (k == K_TIME && r.chance(60)) s = double(r.below(86400)) + (r.chance(50) ? double(r.below(1000000)) / 1e6 : 0);
    return s;
  }

  Bytes row_data() {
    Bytes b = noise(c.row_length);
    if (o.plain_text) std::fill(b.begin(), b.end(), u8(' '));
    for (const auto &k : c.cols) {
      u8 *p = b.data() + k.off;
      if (k.kind == K_STR) {
        const int mode = o.plain_text ? 9 : int(r.below(7));
        for (size_t i = 0; i < k.len; ++i) {
          if (mode == 0) p[i] = u8(r.next());
          else if (mode == 1) p[i] = u8(" \0\t\n\v\f\r\0ab\x80\xa0\xff"[r.below(13)]);
          else if (mode == 2) p[i] = r.chance(50) ? u8(0) : u8(' ');
          else p[i] = u8(r.chance(10) && !o.plain_text ? r.range(128, 255) : r.range(33, 126));
        }
        if (mode >= 3 && k.len) {
          const size_t tail = r.below(k.len + 1);
          for (size_t i = tail; i < k.len; ++i) p[i] = o.plain_text ? ' ' : u8("  \0\t"[r.below(4)]);
          if (mode == 5 && tail > 1) p[r.below(tail)] = ' ';
          if (mode == 6) p[0] = ' ';
        }
      } else if (k.kind == K_DT || k.kind == K_DATE || k.kind == K_TIME) {
        const double d = date_number(k.kind);
        u64 x;
        std::memcpy(&x, &d, 8);
        for (size_t i = 0; i < k.len; ++i) p[c.big ? i : k.len - 1 - i] = u8(x >> (56 - 8 * i));
      } else if (k.kind == K_NUM) {
        u64 x = r.next();
        const int mode = o.finite ? int(r.range(2, 4)) : int(r.below(7));
        double d = 0;
        if (mode == 0) x = 0xFFFF000000000000ull | (u64(r.below(0x60)) << 40);
        else if (mode == 1) x = r.pick(std::vector<u64>{0, 0x8000000000000000ull, 0x7FF0000000000000ull, 0xFFF0000000000000ull, 0x7FF8000000000001ull, 1, 0x000FFFFFFFFFFFFFull, 0x7FEFFFFFFFFFFFFFull});
        else if (mode <= 4) {
          d = mode == 2 ? double(long(r.below(2000)) - 1000) : mode == 3 ? double(long(r.next()) >> r.below(60)) : double(long(r.below(2000000)) - 1000000) / 1000;
          std::memcpy(&x, &d, 8);
        }
        for (size_t i = 0; i < k.len; ++i) p[c.big ? i : k.len - 1 - i] = u8(x >> (56 - 8 * i));
      } else {
        for (size_t i = 0; i < k.len; ++i) p[i] = u8(r.chance(20) ? 0xFF * r.below(2) : r.next());
      }
    }
    return b;
  }

  // --- compressed streams
  // plain encoder: a stream that expands to data, shorter than the row
  bool encode(const Bytes &d, Bytes &s) {
    s.clear();
    size_t i = 0;
    const size_t n = d.size();
    size_t last = n;
    while (last && d[last - 1] == 0) --last; // zero tail may stay implicit
    const bool implicit = r.chance(50);
    const size_t end = implicit ? last : n;
    if (c.comp == RLE) {
      while (i < end) {
        size_t run = 1;
        while (i + run < end && d[i + run] == d[i] && run < 4113) ++run;
        if (run >= 18 && r.chance(90)) {
          if (d[i] == '@' || d[i] == ' ' || d[i] == 0) {
            const size_t m = std::min<size_t>(run, 17 + 4095);
            s.push_back(u8((d[i] == '@' ? 0x50 : d[i] == ' ' ? 0x60 : 0x70) | ((m - 17) >> 8)));
            s.push_back(u8(m - 17));
            i += m;
          } else {
            const size_t m = std::min<size_t>(run, 18 + 255 + 15 * 16);
            size_t e = m - 18;
            size_t lo = std::min<size_t>(e / 16, 15);
            s.push_back(u8(0x40 | lo));
            s.push_back(u8(e - 16 * lo));
            s.push_back(d[i]);
            i += m;
          }
        } else if (run >= 3 && !(d[i] == '@' || d[i] == ' ' || d[i] == 0)) {
          const size_t m = std::min<size_t>(run, 18);
          s.push_back(u8(0xC0 | (m - 3)));
          s.push_back(d[i]);
          i += m;
        } else if (run >= 2 && (d[i] == '@' || d[i] == ' ' || d[i] == 0)) {
          const size_t m = std::min<size_t>(run, 17);
          s.push_back(u8((d[i] == '@' ? 0xD0 : d[i] == ' ' ? 0xE0 : 0xF0) | (m - 2)));
          i += m;
        } else {
          size_t m = 1;
          while (i + m < end && m < 400 && !(i + m + 2 < n && d[i + m] == d[i + m + 1] && d[i + m] == d[i + m + 2])) ++m;
          if (m >= 64 && r.chance(80)) {
            s.push_back(u8((m - 64) >> 8));
            s.push_back(u8(m - 64));
          } else {
            m = std::min<size_t>(m, 64);
            s.push_back(u8((0x80 + 0x10 * ((m - 1) / 16)) | ((m - 1) % 16)));
          }
          s.insert(s.end(), d.begin() + long(i), d.begin() + long(i + m));
          i += m;
        }
      }
    } else {
      size_t ctrl_at = 0;
      int bits = 16;
      u64 items = 0;
      auto bit = [&](int b) {
        if (bits == 16) {
          ctrl_at = s.size();
          s.push_back(0);
          s.push_back(0);
          bits = 0;
        }
        if (b) {
          const unsigned m = 0x8000u >> bits;
          s[ctrl_at] = u8(s[ctrl_at] | (m >> 8));
          s[ctrl_at + 1] = u8(s[ctrl_at + 1] | m);
        }
        ++bits;
        ++items;
      };
      while (i < end) {
        size_t run = 1;
        while (i + run < end && d[i + run] == d[i] && run < 19 + 4095) ++run;
        // pattern
        size_t best = 0, bofs = 0;
        for (size_t ofs = 3; ofs <= i && ofs < 3 + 15 + 16 * 256; ++ofs) {
          size_t m = 0;
          while (i + m < end && m < 271 && d[i + m] == d[i + m - ofs]) ++m;
          if (m > best) best = m, bofs = ofs;
          if (ofs > 200) break;
        }
        if (best >= 3 && best > run) {
          const size_t e = bofs - 3;
          const size_t lo = e % 16, hi = e / 16;
          if (hi <= 255) {
            bit(1);
            if (best >= 16) {
              s.push_back(u8(0x20 | lo));
              s.push_back(u8(hi));
              s.push_back(u8(best - 16));
              i += best;
            } else {
              s.push_back(u8((best << 4) | lo));
              s.push_back(u8(hi));
              i += best;
            }
            continue;
          }
        }
        if (run >= 19) {
          const size_t e = run - 19;
          bit(1);
          s.push_back(u8(0x10 | (e & 15)));
          s.push_back(u8(e >> 4));
          s.push_back(d[i]);
          i += run;
        } else if (run >= 3) {
          bit(1);
          s.push_back(u8(run - 3));
          s.push_back(d[i]);
          i += run;
        } else {
          bit(0);
          s.push_back(d[i]);
          ++i;
        }
      }
    }
    return s.size() < n && !s.empty();
  }
  // random command stream
  Bytes random_stream(size_t target) {
    Bytes s;
    const size_t limit = c.row_length - 1;
    const bool wild = o.bad_streams && r.chance(40);
    if (c.comp == RLE) {
      size_t d = 0;
      while (s.size() < limit && (d < target || r.chance(10))) {
        u8 cmd = u8(r.below(16));
        if (cmd >= 1 && cmd <= 3 && !(wild && r.chance(30))) cmd = u8(8 + r.below(8));
        if (cmd < 8 && target < 80 && r.chance(80)) cmd = u8(8 + r.below(8));
        u8 lo = u8(r.chance(30) ? 0 : r.chance(20) ? 15 : r.below(16));
        u8 op = u8(r.chance(30) ? 0 : r.chance(10) ? 255 : r.below(256));
        if (cmd < 8 && !o.big_commands) lo = u8(r.chance(70) ? 0 : r.below(2));
        Bytes x{u8(cmd << 4 | lo)};
        size_t n = 0;
        bool lit = false;
        switch (cmd) {
        case 0: n = lo * 256u + op + 64; x.push_back(op); lit = true; break;
        case 4: n = lo * 16u + op + 18; x.push_back(op); x.push_back(u8(r.next())); break;
        case 5: case 6: case 7: n = lo * 256u + op + 17; x.push_back(op); break;
        case 8: case 9: case 10: case 11: n = lo + 1u + 16u * (cmd - 8u); lit = true; break;
        case 12: n = lo + 3u; x.push_back(u8(r.next())); break;
        case 13: case 14: case 15: n = lo + 2u; break;
        default: n = 0;
        }
        if (!wild && d + n > c.row_length) {
          if (r.chance(70)) { if (s.size() + 1 >= limit || r.chance(20)) break; else continue; }
          if (!o.bad_streams) { if (r.chance(30)) break; else continue; }
        }
        if (lit) for (size_t k = 0; k < n; ++k) x.push_back(u8(r.next()));
        s.insert(s.end(), x.begin(), x.end());
        d += n;
      }
    } else {
      size_t d = 0;
      int bits = 16;
      size_t at = 0;
      while (s.size() + 3 < limit && d < target) {
        if (bits == 16) {
          at = s.size();
          s.push_back(0);
          s.push_back(0);
          bits = 0;
        }
        const bool b = d > 0 ? r.chance(55) : r.chance(20);
        Bytes x;
        size_t n = 1;
        if (b) {
          u8 cmd = u8(r.chance(40) ? r.below(3) : r.below(16));
          u8 lo = u8(r.chance(30) ? 0 : r.below(16));
          u8 op = u8(r.chance(70) ? 0 : r.below(o.big_commands ? 256 : 4));
          size_t ofs = 0;
          if (cmd == 0) n = lo + 3u, x = {lo, u8(r.next())};
          else if (cmd == 1) n = lo + 16u * op + 19, x = {u8(0x10 | lo), op, u8(r.next())};
          else {
            ofs = lo + 3u + 16u * op;
            n = cmd;
            x = {u8(cmd << 4 | lo), op};
            if (cmd == 2) { const u8 e = u8(r.below(r.chance(50) ? 8 : 256)); n = e + 16u; x.push_back(e); }
          }
          if (!wild && (ofs > d || d + n > c.row_length)) {
            if (r.chance(5) && !r.chance(60)) break;
            if (d + 1 > c.row_length) break;
            x.clear();
            n = 1;
          }
        } else if (d + 1 > c.row_length) break;
        if (x.size() > 1) {
          const unsigned m = 0x8000u >> bits;
          s[at] = u8(s[at] | (m >> 8));
          s[at + 1] = u8(s[at + 1] | m);
        } else x = {u8(r.next())};
        ++bits;
        s.insert(s.end(), x.begin(), x.end());
        d += n;
      }
    }
    if (s.size() > limit) s.resize(limit);
    if (wild && s.size() > 1 && r.chance(50)) s.resize(r.range(1, s.size()));
    if (s.empty()) s.push_back(c.comp == RLE ? 0xF0 : 0);
    return s;
  }
  void expand(Row &w) {
    // the executable specification
    w.data.assign(c.row_length, 0xEE);
    spec::Codec g{w.stream.data(), w.stream.size(), w.data.data(), c.row_length, 0, 0, 0, 0};
    spec::Status st = spec::CONT;
    bool have_alt = false;
    while (true) {
      if (c.comp == RDC && g.n_src - g.i < 3 && g.i < g.n_src && g.d < g.n_dst && !have_alt) {
        have_alt = true;
        w.alt = w.data;
        std::fill(w.alt.begin() + long(g.d), w.alt.end(), 0);
      }
      st = c.comp == RLE ? spec::rle_step(g) : spec::rdc_step(g);
      if (st != spec::CONT) break;
    }
    w.error = st == spec::FAIL;
    std::fill(w.data.begin() + long(g.d), w.data.end(), 0);
    w.tail = have_alt;
  }
  Row make_row() {
    Row w;
    if (c.comp == NONE) {
      w.data = row_data();
      w.stream = w.data;
      return w;
    }
    const int mode = int(r.below(10));
    if (mode < (o.mixed_streams ? 5 : 10)) {
      // realistic: encode a row
      w.data = row_data();
      if (encode(w.data, w.stream)) {
        const Bytes plain = w.data;
        expand(w);
        if (o.tails || !w.tail) return w;
        w.data = plain;
        w.tail = false;
      }
      w.stream = w.data; // stored as is
      if (r.chance(20)) { const auto x = noise(r.below(6)); w.stream.insert(w.stream.end(), x.begin(), x.end()); }
      return w;
    }
    if (mode == 5) {
      w.data = row_data();
      w.stream = w.data;
      return w;
    }
    for (int t = 0; t < 20; ++t) {
      w.stream = random_stream(r.chance(60) ? c.row_length : r.below(c.row_length + 1));
      expand(w);
      if ((!w.error || o.bad_streams) && (!w.tail || o.tails)) return w;
    }
    w.error = false;
    w.tail = false;
    w.data = row_data();
    w.stream = w.data;
    return w;
  }

  // --- pages
  struct Sub {
    Bytes b;
    u8 comp = 0, type = 0;
    bool zero = false;
    int seq = 0;
  };
  Bytes signature(std::initializer_list<int> little32, bool pair = false) {
    // little32: the four bytes in little endian order (32 bit)
    Bytes s(little32.begin(), little32.end());
    (void)pair;
    return s;
  }
  Bytes sig(u64 v) { // v: sign-extended signature value
    Bytes b(I);
    put(b, 0, v, I);
    return b;
  }
  Sub sub(u64 s, size_t n) {
    Sub x;
    x.b = noise(n);
    const auto b = sig(s);
    std::copy(b.begin(), b.end(), x.b.begin());
    return x;
  }
  static constexpr u64 S_ROW = 0xF7F7F7F7ull, S_COL = 0xF6F6F6F6ull;
  static constexpr u64 S_COUNTS = 0xFFFFFFFFFFFFFC00ull, S_TEXT = 0xFFFFFFFFFFFFFFFDull, S_NAME = ~0ull,
                       S_ATTR = 0xFFFFFFFFFFFFFFFCull, S_FMT = 0xFFFFFFFFFFFFFBFEull, S_LIST = 0xFFFFFFFFFFFFFFFEull;

  bool known_signature(const u8 *p) {
    auto eq = [&](const Bytes &b) { return std::memcmp(p, b.data(), I) == 0; };
    for (u64 s : {S_ROW, S_COL, S_COUNTS, S_TEXT, S_NAME, S_ATTR, S_FMT, S_LIST}) {
      Bytes b = sig(s), e(b.rbegin(), b.rend());
      if (eq(b) || eq(e)) return true;
    }
    Bytes z(I, 0);
    (void)z;
    return false;
  }

  std::vector<Bytes> texts;   // column texts, from the length field on
  struct Ref { size_t idx, off, len; };
  Ref store(const std::string &s) {
    if (s.empty()) {
      // absent: empty, out of range, or nothing but blanks
      switch (r.below(3)) {
      case 0: return {r.below(texts.size()), r.below(20), 0};
      case 1: return {texts.size() + 100 + r.below(100), r.below(20), r.below(20)};
      default: break;
      }
      std::string x(r.range(1, 5), ' ');
      return store_raw(x);
    }
    std::string x = s;
    if (r.chance(30)) x = std::string(r.range(1, 3), ' ') + x;
    if (r.chance(40)) x += r.chance(50) ? std::string(r.range(1, 3), ' ') : std::string(r.range(1, 3), '\0');
    return store_raw(x);
  }
  Ref store_raw(const std::string &x) {
    size_t idx = r.below(texts.size());
    if (texts[idx].size() + x.size() > text_limit) {
      for (idx = 0; idx < texts.size() && texts[idx].size() + x.size() > text_limit; ++idx) {}
      if (idx == texts.size()) {
        texts.push_back(noise(16));
        idx = texts.size() - 1;
        std::fill(texts[idx].begin(), texts[idx].end(), 0);
      }
    }
    auto &t = texts[idx];
    if (r.chance(20)) t.push_back(u8(r.range(33, 126)));
    const size_t off = t.size();
    t.insert(t.end(), x.begin(), x.end());
    size_t len = x.size();
    return {idx, off, len};
  }
  size_t text_limit = 600;

  Case make() {
    c.big = o.force_big >= 0 ? o.force_big : r.chance(50);
    c.b64 = o.force_b64 >= 0 ? o.force_b64 : r.chance(50);
    c.a1 = r.chance(50);
    I = c.b64 ? 8 : 4;
    pbo = c.b64 ? 32 : 16;
    c.comp = o.comp >= 0 ? Comp(o.comp) : Comp(r.chance(50) ? 0 : r.range(1, 2));
    columns();
    header();
    metadata_and_rows();
    return std::move(c);
  }

  void header() {
    const size_t a1 = c.a1 ? 4 : 0, ta = a1 + (c.b64 ? 4 : 0);
    const size_t min = 288 + ta;
    c.header_length = o.small_header || r.chance(30) ? min + r.below(40) : r.pick(std::vector<size_t>{1024, 8192, 4096, 1024, 65536 / 4});
    Bytes h = noise(c.header_length);
    static const u8 magic[32] = {0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0xc2, 0xea, 0x81, 0x60, 0xb3, 0x14, 0x11, 0xcf, 0xbd, 0x92, 8, 0, 9, 0xc7, 0x31, 0x8c, 0x18, 0x1f, 0x10, 0x11};
    std::memcpy(h.data(), magic, 32);
    auto not3 = [&] { u8 v; do v = r.chance(70) ? u8(0x22) : u8(r.next()); while (v == '3'); return v; };
    h[32] = c.b64 ? '3' : not3();
    h[35] = c.a1 ? '3' : not3();
    h[37] = c.big ? (r.chance(80) ? u8(0) : u8(r.range(2, 255))) : u8(1);
    c.platform = h[39] = r.chance(80) ? u8('1' + r.below(2)) : u8(r.next());
    c.encoding = h[70] = u8(r.next());
    auto put_field = [&](size_t at, size_t n) {
      const auto s = field(n);
      std::memcpy(h.data() + at, s.data(), n);
      return trim_header(s);
    };
    c.dataset_name = put_field(92, 64);
    c.file_type = put_field(156, 8);
    auto stamp = [&]() -> double {
      if (r.chance(10)) return date_number(K_DT);
      return double(r.below(4000000000ull)) + double(r.below(1000000)) / 1e6;
    };
    c.created = stamp();
    c.modified = stamp();
    putd(h, 164 + a1, c.created);
    putd(h, 172 + a1, c.modified);
    put(h, 196 + a1, c.header_length, 4);
    header_at = h;
    c.page_count = r.next() & 0xFFFFFFFF;
    c.sas_release = put_field2(216 + ta, 8);
    c.server_type = put_field2(224 + ta, 16);
    c.os_type = put_field2(240 + ta, 16);
    const auto alt = put_field2(256 + ta, 16);
    auto first = field(16);
    if (r.chance(40)) first[0] = 0;
    std::memcpy(header_at.data() + 272 + ta, first.data(), 16);
    c.os_name = first[0] ? trim_header(first) : alt;
    put(header_at, 204 + a1, c.page_count, 4);
  }
  Bytes header_at;
  std::string put_field2(size_t at, size_t n) {
    const auto s = field(n);
    std::memcpy(header_at.data() + at, s.data(), n);
    return trim_header(s);
  }

  void metadata_and_rows() {
    // ---- rows
    size_t nrows = r.chance(8) ? 0 : r.range(1, size_t(o.max_rows));
    std::vector<Row> rows;
    for (size_t i = 0; i < nrows; ++i) rows.push_back(make_row());
    c.row_count = nrows;
    if (o.short_file && r.chance(20)) c.row_count = r.chance(50) ? nrows + r.range(1, 20) : r.below(nrows + 1);

    // ---- column texts
    const size_t ntexts = r.chance(60) ? 1 : r.range(1, 4);
    for (size_t i = 0; i < ntexts; ++i) texts.push_back(Bytes(16, 0));
    size_t comp_off = c.b64 ? 20 : 16; // from the subheader
    size_t t_off = comp_off - I;       // from the length field
    auto &t0 = texts[0];
    t0.assign(t_off + 8, 0);
    for (size_t k = 2; k < t_off; ++k) t0[k] = u8(r.chance(50) ? 0 : r.range(33, 126));
    if (c.comp != NONE) std::memcpy(&t0[t_off], c.comp == RLE ? "SASYZCRL" : "SASYZCR2", 8);
    else if (r.chance(50)) std::memcpy(&t0[t_off], "        ", 8);
    // creator texts follow
    c.lcs = r.chance(50) ? 0 : r.range(1, 12);
    c.lcp = r.chance(50) ? 0 : r.range(1, 12);
    auto extra = [&](size_t at, size_t n, std::string &out) {
      const size_t p = at;
      if (t0.size() < p + n) t0.resize(p + n, u8(' '));
      std::string s;
      for (size_t k = 0; k < n; ++k) {
        if (k == 0 || r.chance(80)) t0[p + k] = u8(r.chance(20) ? r.range(128, 255) : r.range(33, 126));
        s += char(t0[p + k]);
      }
      out = trim_header(s);
    };
    if (c.comp == NONE && r.chance(35) && c.lcs) {
      // creator stands at the compression place
      std::string dummy;
      extra(t_off, std::max<size_t>(8, c.lcs), dummy);
      c.creator = trim_header(std::string(reinterpret_cast<char *>(&t0[t_off]), c.lcs));
      c.lcp = 0;
    } else if (c.comp == NONE) {
      bool blank = true;
      (void)blank;
      c.lcs = 0;
      if (t0.size() < t_off + 16) t0.resize(t_off + 16, 0);
      extra(t_off + 16, c.lcp, c.creator_proc);
    } else if (c.comp == RLE) {
      if (t0.size() < t_off + 24) t0.resize(t_off + 24, u8(' '));
      extra(t_off + 24, c.lcp, c.creator_proc);
    } else {
      // RDC: the place holds the literal, creator if lcs>0
      if (c.lcs) {
        c.lcp = 0;
        if (t0.size() < t_off + c.lcs) t0.resize(t_off + c.lcs, u8(' '));
        c.creator = trim_header(std::string(reinterpret_cast<char *>(&t0[t_off]), c.lcs));
      }
    }
    const size_t lcs_stored = c.lcs ? c.lcs : (c.comp == NONE ? r.below(20) : 0);
    size_t lcp_stored = c.lcp;
    if (c.creator.size() || (c.comp == RDC && c.lcs) || (c.comp == NONE && c.lcs)) lcp_stored = r.below(20);
    if (c.comp == RLE) { // untouched
    }
    size_t lcs_file = lcs_stored;
    if (c.comp == RLE) lcs_file = c.lcs;
    if (c.comp == RDC) lcs_file = c.lcs;

    // page length decides how much fits
    const size_t hdr = c.b64 ? 808 : 480;
    size_t need = pbo + 8 + 3 * I + hdr + 16;
    size_t maxrow = c.row_length;
    for (auto &w : rows) maxrow = std::max(maxrow, w.stream.size());
    need = std::max(need, pbo + 8 + 3 * I + maxrow + 8);
    need = std::max(need, pbo + 8 + 3 * I + t0.size() + I + 40);
    c.page_length = need + r.below(r.chance(60) ? 900 : o.max_page);
    if (r.chance(30)) c.page_length = std::max<size_t>(c.page_length, r.chance(50) ? 4096 : 8192);
    text_limit = std::min<size_t>(60000, c.page_length - (pbo + 8 + 3 * I + I + 32));
    if (r.chance(50)) text_limit = std::min<size_t>(text_limit, std::max<size_t>(t0.size() + 100, 200));

    // ---- references
    std::vector<Ref> names, fmts, labels;
    for (auto &k : c.cols) {
      names.push_back(store(k.name));
      fmts.push_back(store(k.format));
      labels.push_back(store(k.label));
    }
    // text lengths
    for (auto &t : texts) {
      if (r.chance(30)) t.push_back(' ');
      put(t, 0, t.size(), 2);
    }
    // a reference running past its text is cut: use it for the last one
    // ---- subheaders
    std::vector<Sub> L0, LN, LA, LF, any;
    {
      // sign-extended: 64 bit signature of row/col size is not
      Sub s = sub(S_ROW, hdr);
      if (c.b64 && r.chance(50)) { // both halves orders are known
        Bytes b = sig(S_ROW);
        (void)b;
      }
      if (lcs_at() + 4 > s.b.size()) std::abort();
      put(s.b, 5 * I, c.row_length, I);
      put(s.b, 6 * I, c.row_count, I);
      c.p1 = r.chance(80) ? c.column_count : r.below(50);
      c.p2 = c.p1 <= c.column_count ? c.column_count - c.p1 : r.below(3);
      put(s.b, 9 * I, c.p1, I);
      put(s.b, 10 * I, c.p2, I);
      mixpos_sub = 15 * I;
      put(s.b, lcs_at(), lcs_file, 2);
      put(s.b, lcp_at(), lcp_stored, 2);
      L0.push_back(s);
    }
    for (auto &t : texts) {
      Sub s = sub(S_TEXT, I + t.size() + r.below(12));
      std::copy(t.begin(), t.end(), s.b.begin() + long(I));
      L0.push_back(s);
    }
    {
      Sub s = sub(S_COL, 3 * I);
      put(s.b, I, c.column_count, I);
      any.push_back(s);
    }
    auto split = [&](std::vector<Sub> &out, u64 sg, size_t entry, size_t tailn, auto fill) {
      size_t i = 0;
      const size_t n = c.column_count;
      const size_t room = (c.page_length - (pbo + 8 + 3 * I + 16) - I - 8 - tailn - 32) / entry;
      while (i < n) {
        size_t m = r.chance(60) ? n - i : r.range(1, n - i);
        m = std::max<size_t>(1, std::min(m, room));
        Sub s = sub(sg, I + 8 + m * entry + tailn + (r.chance(30) ? r.below(entry) : 0));
        for (size_t k = 0; k < m; ++k) fill(s.b, I + 8 + k * entry, i + k);
        out.push_back(s);
        i += m;
      }
    };
    // n entries: the list ends 12+I bytes after the start of the last entry
    split(LN, S_NAME, 8, 12 + I - 8, [&](Bytes &b, size_t at, size_t i) {
      put(b, at, names[i].idx, 2);
      put(b, at + 2, names[i].off, 2);
      put(b, at + 4, names[i].len, 2);
    });
    split(LA, S_ATTR, I + 8, 4, [&](Bytes &b, size_t at, size_t i) {
      put(b, at, c.cols[i].off, I);
      put(b, at + I, c.cols[i].len, 4);
      b[at + I + 6] = c.cols[i].num ? 1 : (r.chance(80) ? 2 : u8(r.chance(50) ? 0 : r.range(2, 255)));
    });
    for (size_t i = 0; i < c.column_count; ++i) {
      Sub s = sub(S_FMT, 3 * I + 34 + r.below(8));
      const size_t at = 3 * I;
      put(s.b, at + 22, fmts[i].idx, 2);
      put(s.b, at + 24, fmts[i].off, 2);
      put(s.b, at + 26, fmts[i].len, 2);
      put(s.b, at + 28, labels[i].idx, 2);
      put(s.b, at + 30, labels[i].off, 2);
      put(s.b, at + 32, labels[i].len, 2);
      LF.push_back(s);
    }
    if (r.chance(40)) any.push_back(sub(S_COUNTS, r.range(I, 60)));
    if (r.chance(40)) any.push_back(sub(S_LIST, r.range(I, 60)));
    if (r.chance(30)) { // unknown signature
      Sub s;
      do s.b = noise(r.range(I, 40)), s.b[0] = u8(r.next()); while (known_signature(s.b.data()));
      any.push_back(s);
    }
    if (r.chance(30)) { // truncated pointer: its content must be ignored
      Sub s = sub(S_ROW, hdr);
      s.comp = 1;
      any.push_back(s);
    }
    if (r.chance(30)) {
      Sub s = sub(S_COL, 3 * I);
      s.zero = true;
      any.push_back(s);
    }
    // merge
    std::vector<Sub> seq = L0;
    std::vector<std::vector<Sub> *> qs{&LN, &LA, &LF};
    std::vector<size_t> pos(3, 0);
    if (r.chance(50)) {
      for (auto *q : qs) seq.insert(seq.end(), q->begin(), q->end());
    } else {
      while (true) {
        std::vector<size_t> live;
        for (size_t q = 0; q < 3; ++q) if (pos[q] < qs[q]->size()) live.push_back(q);
        if (live.empty()) break;
        const size_t q = r.pick(live);
        seq.push_back((*qs[q])[pos[q]++]);
      }
    }
    for (auto &s : any) seq.insert(seq.begin() + long(r.range(0, seq.size())), s);

    // ---- pages of metadata
    const size_t cap = c.page_length;
    const size_t ss = 3 * I;
    struct Page { u16_t type; Bytes b; };
    std::vector<Bytes> pages;
    size_t rowsub_page = ~size_t(0), rowsub_at = 0; // to patch mix count
    auto build_meta = [&](uint16_t type, const std::vector<Sub> &subs, size_t reserve_rows, uint16_t block) {
      Bytes b = noise(cap);
      put(b, pbo, type, 2);
      put(b, pbo + 2, block, 2);
      put(b, pbo + 4, subs.size(), 2);
      size_t front = pbo + 8 + subs.size() * ss;
      front += front % 8;
      front += reserve_rows;
      size_t back = cap;
      size_t total = 0;
      for (auto &s : subs) total += s.b.size();
      size_t slack = back - front - total;
      for (size_t k = 0; k < subs.size(); ++k) {
        const auto &s = subs[k];
        const size_t gap = r.chance(50) ? 0 : r.below(std::min<size_t>(slack, 40) + 1);
        slack -= gap;
        back -= s.b.size() + gap;
        std::copy(s.b.begin(), s.b.end(), b.begin() + long(back));
        const size_t at = pbo + 8 + k * ss;
        put(b, at, back, I);
        put(b, at + I, s.zero ? 0 : s.b.size(), I);
        b[at + 2 * I] = s.comp;
        b[at + 2 * I + 1] = s.type;
        if (s.comp == 0 && s.b.size() == hdr && rowsub_page == ~size_t(0) && std::equal(s.b.begin(), s.b.begin() + long(I), L0[0].b.begin())) {
          rowsub_page = pages.size();
          rowsub_at = back;
        }
      }
      return b;
    };
    auto fits = [&](const std::vector<Sub> &subs, const Sub *more, size_t reserve) {
      size_t n = subs.size() + (more ? 1 : 0), total = reserve + pbo + 8 + n * ss + 8;
      for (auto &s : subs) total += s.b.size();
      if (more) total += more->b.size();
      return total <= cap;
    };
    auto junk_page = [&](bool data_phase) {
      Bytes b = noise(cap);
      uint16_t t;
      do t = r.chance(50) ? uint16_t(16384) : uint16_t(r.next());
      while (t == 0 || t == 256 || t == 512 || t == 640 || (t == 1024 && !data_phase));
      if (data_phase && r.chance(30)) t = 1024;
      put(b, pbo, t, 2);
      return b;
    };
    std::vector<Sub> cur;
    std::vector<std::vector<Sub>> meta_pages;
    for (auto &s : seq) {
      if (!cur.empty() && (!fits(cur, &s, 0) || r.chance(4))) {
        meta_pages.push_back(cur);
        cur.clear();
      }
      cur.push_back(s);
    }
    meta_pages.push_back(cur);

    // ---- delivery
    std::vector<Row> delivered;
    size_t next = 0;
    const bool many = o.pages_like == 1;
    c.mix = 0;
    auto data_page = [&](size_t k) {
      Bytes b = noise(cap);
      put(b, pbo, 256, 2);
      put(b, pbo + 2, k, 2);
      put(b, pbo + 4, r.chance(50) ? 0 : r.below(3), 2);
      for (size_t i = 0; i < k; ++i) {
        std::copy(rows[next].data.begin(), rows[next].data.end(), b.begin() + long(pbo + 8 + i * c.row_length));
        delivered.push_back(rows[next]);
        ++next;
      }
      return b;
    };
    const size_t room = c.row_length ? (cap - pbo - 8) / c.row_length : 1000;

    if (c.comp == NONE) {
      // last metadata page may be mixed
      bool mixed = r.chance(50);
      size_t used = pbo + 8 + meta_pages.back().size() * ss + 16;
      for (auto &s : meta_pages.back()) used += s.b.size();
      if (used > cap) mixed = false;
      size_t mixroom = c.row_length && used < cap ? (cap - used) / c.row_length : 0;
      // rows that every mixed page holds
      size_t K = std::min(rows.size(), mixroom);
      if (K && r.chance(50)) K = r.range(r.chance(20) ? 0 : 1, K);
      if (std::min(K, c.row_count) < K && c.row_count < K) K = c.row_count;
      if (!mixed) K = 0;
      c.mix = K;
      if (mixed && (c.row_count == K) && r.chance(50)) c.mix = K + r.below(50);
      if (!mixed && r.chance(30)) c.mix = r.below(20), mixed = false;
      const bool mix_allowed_later = mixed && K > 0 && c.mix == K;
      for (size_t k = 0; k < meta_pages.size(); ++k) {
        if (r.chance(10)) pages.push_back(junk_page(false));
        const bool last = k + 1 == meta_pages.size();
        if (last && mixed) {
          pages.push_back(build_meta(r.chance(50) ? 512 : 640, meta_pages[k], K * c.row_length + 8, uint16_t(r.next())));
          Bytes &b = pages.back();
          size_t off = pbo + 8 + meta_pages[k].size() * ss;
          off += off % 8;
          for (size_t i = 0; i < K; ++i) {
            std::copy(rows[next].data.begin(), rows[next].data.end(), b.begin() + long(off + i * c.row_length));
            delivered.push_back(rows[next]);
            ++next;
          }
        } else
          pages.push_back(build_meta(r.chance(70) ? 0 : 1024, meta_pages[k], 0, uint16_t(r.next())));
      }
      bool reached = mixed;
      while (next < rows.size()) {
        if (r.chance(many ? 25 : 8)) pages.push_back(junk_page(reached));
        if (r.chance(many ? 25 : 8)) pages.push_back(data_page(0)), reached = true;
        if (reached && r.chance(many ? 20 : 6)) { // metadata page without rows
          std::vector<Sub> none;
          if (r.chance(50)) { Sub s; s.b = noise(I + r.below(20)); none.push_back(s); }
          pages.push_back(build_meta(0, none, 0, uint16_t(r.next())));
        }
        if (reached && mix_allowed_later && next + K <= rows.size() && r.chance(30)) {
          std::vector<Sub> none;
          const size_t q = r.below(3);
          for (size_t k = 0; k < q; ++k) { Sub s; s.b = noise(I + r.below(9)); none.push_back(s); }
          if (fits(none, nullptr, K * c.row_length + 8)) {
            pages.push_back(build_meta(r.chance(50) ? 512 : 640, none, K * c.row_length + 8, uint16_t(r.next())));
            size_t off = pbo + 8 + none.size() * ss;
            off += off % 8;
            for (size_t i = 0; i < K; ++i) {
              std::copy(rows[next].data.begin(), rows[next].data.end(), pages.back().begin() + long(off + i * c.row_length));
              delivered.push_back(rows[next]);
              ++next;
            }
            continue;
          }
        }
        size_t k = std::min({rows.size() - next, room, size_t(60000)});
        if (k > 1 && r.chance(many ? 80 : 40)) k = r.range(1, k);
        pages.push_back(data_page(k));
        reached = true;
      }
      if (r.chance(15)) pages.push_back(junk_page(reached));
      if (r.chance(10)) pages.push_back(data_page(0));
    } else {
      // compressed rows: data subheaders of metadata pages
      auto data_sub = [&](const Row &w) {
        Sub s;
        s.b = w.stream;
        s.comp = r.chance(70) ? 4 : 0;
        s.type = 1;
        return s;
      };
      auto ok_in_metadata = [&](const Row &w) { return w.stream.size() >= I && !known_signature(w.stream.data()) && !(w.stream.size() < I); };
      for (size_t k = 0; k < meta_pages.size(); ++k) {
        if (r.chance(10)) pages.push_back(junk_page(false));
        auto subs = meta_pages[k];
        const bool last = k + 1 == meta_pages.size();
        if (last && r.chance(60))
          while (next < rows.size() && ok_in_metadata(rows[next])) {
            auto s = data_sub(rows[next]);
            if (!fits(subs, &s, 0) || r.chance(15)) break;
            subs.push_back(s);
            delivered.push_back(rows[next++]);
          }
        pages.push_back(build_meta(r.chance(80) ? 0 : 1024, subs, 0, uint16_t(r.next())));
      }
      bool reached = next > 0;
      while (next < rows.size()) {
        if (r.chance(many ? 25 : 8)) pages.push_back(junk_page(reached));
        if (reached && r.chance(many ? 20 : 6)) pages.push_back(build_meta(0, {}, 0, uint16_t(r.next())));
        if (reached && room && r.chance(10)) { // a page of uncompressed rows
          size_t k = 0;
          while (k < room && next + k < rows.size() && k < 5 && rows[next + k].stream.size() >= c.row_length && !rows[next + k].error) ++k;
          if (k) { pages.push_back(data_page(k)); continue; }
        }
        std::vector<Sub> subs;
        const size_t stop = many ? r.range(1, 6) : 1000;
        while (next < rows.size() && subs.size() < stop) {
          if (!reached && !ok_in_metadata(rows[next])) {
            // cannot stand where metadata are still looked for
            rows[next].stream = rows[next].data = row_data();
            rows[next].error = rows[next].tail = false;
            while (!ok_in_metadata(rows[next]) && rows[next].stream.size() >= I) {
              rows[next].data[0] = u8(r.next());
              rows[next].stream = rows[next].data;
            }
          }
          auto s = data_sub(rows[next]);
          if (!fits(subs, &s, 0)) break;
          subs.push_back(s);
          delivered.push_back(rows[next++]);
          if (r.chance(8)) { // deleted or truncated: no row
            Sub x;
            x.b = noise(I + r.below(9));
            x.type = 1;
            if (r.chance(50)) x.comp = 1;
            else x.comp = 4, x.zero = true;
            if (fits(subs, &x, 0)) subs.push_back(x);
          }
          if (reached && r.chance(5)) { // not a data subheader
            Sub x;
            x.b = noise(I + r.below(9));
            x.type = r.chance(50) ? 0 : u8(r.range(2, 255));
            x.comp = r.chance(50) ? 0 : u8(r.range(2, 3));
            if (x.type == 1) x.type = 0;
            if (fits(subs, &x, 0)) subs.push_back(x);
          }
        }
        pages.push_back(build_meta(0, subs, 0, uint16_t(r.next())));
        reached = true;
      }
      if (r.chance(15)) pages.push_back(junk_page(reached));
    }
    put(pages[rowsub_page], rowsub_at + 15 * I, c.mix, I);

    // ---- file
    put(header_at, 200 + (c.a1 ? 4 : 0), c.page_length, 4);
    c.file = header_at;
    for (auto &p : pages) {
      c.pages.push_back(c.file.size());
      c.file.insert(c.file.end(), p.begin(), p.end());
    }
    if (delivered.size() > c.row_count) delivered.resize(c.row_count);
    c.rows = delivered;
    // published lcs / lcp follow the creator rules
    if (c.comp == NONE && c.creator.empty() && !(c.lcs)) c.lcs = 0;
    c.lcp = c.comp == NONE && c.lcs ? 0 : c.comp == RDC && c.lcs ? 0 : c.comp == RDC ? lcp_stored : c.lcp;
    rowsub_file_at = c.pages[rowsub_page] + rowsub_at;
    // interesting bytes for mutation
    const size_t a1 = c.a1 ? 4 : 0;
    for (size_t k : {size_t(32), size_t(35), size_t(37), 196 + a1, 200 + a1}) c.fields.push_back(k);
    for (size_t p : c.pages) {
      for (size_t k = 0; k < 6; ++k) c.fields.push_back(p + pbo + k);
      for (size_t k = 0; k < std::min<size_t>(60, cap - pbo - 8); ++k) c.fields.push_back(p + pbo + 8 + k);
    }
    for (size_t k : {lcs_at(), lcp_at(), 5 * I, 6 * I, 9 * I, 15 * I})
      for (size_t j = 0; j < (k == lcs_at() || k == lcp_at() ? 2 : I); ++j) c.fields.push_back(rowsub_file_at + k + j);
  }
  size_t rowsub_file_at = 0;
  size_t mixpos_sub = 0;
  using u16_t = uint16_t;
  size_t lcs_at() const { return c.b64 ? 682 : 354; }
  size_t lcp_at() const { return c.b64 ? 706 : 378; }
};

inline Case make_case(u64 seed, const Opts &o) {
  Rng r(seed);
  Writer w(r, o);
  return w.make();
}
} // namespace gen
