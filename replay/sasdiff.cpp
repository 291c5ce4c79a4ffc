// Native search for violations: the real library, built with sanitizers from
// the current sources, against the expectations of sasgen.hpp.
//   sasdiff PROPERTY SEED COUNT OUTDIR        search
//   sasdiff PROPERTY --case N [OUTDIR]        one case again
//   sasdiff emit KIND SEED COUNT DIR          files + expectations as JSON
#include "sasgen.hpp"
#include <cppsas7bdat/filter/column.hpp>
#include <cppsas7bdat/reader.hpp>
#include <cppsas7bdat/sink/csv.hpp>
#include <cppsas7bdat/sink/null.hpp>
#include <cppsas7bdat/sink/print.hpp>
#include <cppsas7bdat/source/ifstream.hpp>
#include <fmt/core.h>
#include <fstream>
#include <csignal>
#include <set>
#include <spdlog/spdlog.h>
#include <sstream>
#include <sys/stat.h>
#include <unistd.h>
using namespace gen;
namespace sas = cppsas7bdat;

// Memory exhaustion is not the point: absurd requests throw as on a small machine.
static void *limited(std::size_t n, std::size_t al) {
  if (n > (std::size_t(1) << 28)) throw std::bad_alloc();
  void *p = nullptr;
  if (al <= 16) p = std::malloc(n ? n : 1);
  else if (::posix_memalign(&p, al, n ? n : 1)) p = nullptr;
  if (!p) throw std::bad_alloc();
  return p;
}
void *operator new(std::size_t n) { return limited(n, 16); }
void *operator new[](std::size_t n) { return limited(n, 16); }
void *operator new(std::size_t n, std::align_val_t a) { return limited(n, std::size_t(a)); }
void *operator new[](std::size_t n, std::align_val_t a) { return limited(n, std::size_t(a)); }
void operator delete(void *p) noexcept { std::free(p); }
void operator delete[](void *p) noexcept { std::free(p); }
void operator delete(void *p, std::size_t) noexcept { std::free(p); }
void operator delete[](void *p, std::size_t) noexcept { std::free(p); }
void operator delete(void *p, std::align_val_t) noexcept { std::free(p); }
void operator delete[](void *p, std::align_val_t) noexcept { std::free(p); }
void operator delete(void *p, std::size_t, std::align_val_t) noexcept { std::free(p); }
void operator delete[](void *p, std::size_t, std::align_val_t) noexcept { std::free(p); }

static std::string g_outdir, g_prop;
static Bytes g_file;       // file under test
static std::string g_what; // description of the case under test
static u64 g_case = 0;
static u64 g_eval = 0, g_nontrivial = 0, g_known = 0;
static std::vector<std::string> g_samples;

struct Mismatch { std::string text; };
[[noreturn]] static void fail(const std::string &t) { throw Mismatch{t}; }
static std::string hex(const void *p, size_t n) {
  std::string s;
  const u8 *b = static_cast<const u8 *>(p);
  for (size_t i = 0; i < n && i < 400; ++i) s += fmt::format("{:02x}", b[i]);
  if (n > 400) s += "...";
  return s;
}
static std::string show(const std::string &s) {
  std::string r = "\"";
  for (unsigned char c : s) r += c >= 32 && c < 127 ? std::string(1, char(c)) : fmt::format("\\x{:02x}", c);
  return r + "\"";
}
template <class A, class B> static void same(const A &got, const B &want, const std::string &what) {
  if (!(got == want)) fail(fmt::format("{}: got {}, expected {}", what, got, want));
}
static void same_text(const std::string &got, const std::string &want, const std::string &what) {
  if (got != want) fail(fmt::format("{}: got {}, expected {}", what, show(got), show(want)));
}

static void save(const std::string &text) {
  std::ofstream(g_outdir + "/input.sas7bdat", std::ios::binary).write(reinterpret_cast<const char *>(g_file.data()), long(g_file.size()));
  std::ofstream o(g_outdir + "/replay.txt");
  o << "property " << g_prop << "\ncase " << g_case << "\n" << g_what << "\n" << text << "\n"
    << "the input file, if one is involved, is input.sas7bdat beside this file\n";
}
// the case at hand is written before it runs, so that a crash leaves it behind
static void announce() {
  save("the case was running when the process died (memory error, abort or no progress)");
}

// ---- sources
struct MemState { const Bytes *data; size_t pos = 0; int mode = 0; size_t reads = 0; bool hit_eof = false; };
struct MemSource { // behaves like an input stream on the bytes
  std::shared_ptr<MemState> st;
  bool eof() { return st->pos >= st->data->size() && st->hit_eof; }
  bool read_bytes(void *p, const size_t n) {
    const size_t left = st->data->size() - st->pos;
    const size_t m = std::min(n, left);
    std::memcpy(p, st->data->data() + st->pos, m);
    st->pos += m;
    if (m < n) { st->hit_eof = (m == 0 || st->mode == 0) ? (m == 0) : true; return false; }
    return true;
  }
};
static MemSource mem(const Bytes &b) { return MemSource{std::make_shared<MemState>(MemState{&b})}; }

// ---- recording sink
struct Event { int kind; size_t index; Bytes data; }; // 0 properties, 1 row, 2 end
struct Rec {
  std::vector<Event> ev;
  size_t row_length = 0;
  std::vector<sas::Column> columns;
};
struct RecSink {
  std::shared_ptr<Rec> r;
  void set_properties(const sas::Properties &p) {
    r->ev.push_back({0, p.row_count, {}});
    r->row_length = p.row_length;
    for (auto &c : p.columns) r->columns.push_back(c);
  }
  void push_row(size_t i, sas::Column::PBUF p) {
    const u8 *b = static_cast<const u8 *>(p);
    r->ev.push_back({1, i, Bytes(b, b + r->row_length)});
  }
  void end_of_data() { r->ev.push_back({2, 0, {}}); }
};

static void check_row(const Case &c, size_t i, const Bytes &got) {
  const Row &w = c.rows[i];
  Bytes want(w.data.begin(), w.data.begin() + long(c.row_length));
  if (got == want) return;
  if (w.tail && got == w.alt) { ++g_known; return; } // known finding
  size_t k = 0;
  while (k < got.size() && got[k] == want[k]) ++k;
  fail(fmt::format("row {} differs at byte {}\n  stored {}\n  got    {}\n  wanted {}", i, k, hex(w.stream.data(), w.stream.size()), hex(got.data(), got.size()), hex(want.data(), want.size())));
}

// read everything row by row; rows with invalid streams must raise
static void read_rows_checked(const Case &c, bool errors) {
  auto rec = std::make_shared<Rec>();
  sas::Reader rd(mem(c.file), RecSink{rec});
  for (size_t i = 0; i < c.rows.size(); ++i) {
    const size_t before = rec->ev.size();
    bool threw = false, more = false;
    try {
      more = rd.read_row();
    } catch (const std::exception &) {
      threw = true;
    }
    const Row &w = c.rows[i];
    if (threw) {
      if (w.error) { if (rec->ev.size() != before) fail(fmt::format("row {}: pushed and rejected", i)); continue; }
      if (w.tail) fail(fmt::format("row {} is rejected", i));
      fail(fmt::format("row {} is rejected although its stream {} is valid (row length {})", i, hex(w.stream.data(), w.stream.size()), c.row_length));
    }
    if (!more) fail(fmt::format("data ends after {} rows, {} expected", i, c.rows.size()));
    if (rec->ev.size() != before + 1 || rec->ev.back().kind != 1) fail(fmt::format("row {}: not exactly one row pushed", i));
    same(rec->ev.back().index, i, "index of the row");
    if (w.error) {
      if (w.tail && rec->ev.back().data == w.alt) { ++g_known; continue; }
      fail(fmt::format("row {}: invalid stream {} is accepted as {} (row length {})", i, hex(w.stream.data(), w.stream.size()), hex(rec->ev.back().data.data(), c.row_length), c.row_length));
    }
    check_row(c, i, rec->ev.back().data);
  }
  (void)errors;
  if (rd.read_row()) fail(fmt::format("a row after the last of {}", c.rows.size()));
}

// ---- C01 C02
static void codec(u64 seed, int comp) {
  Opts o;
  o.comp = comp;
  o.tails = seed % 8 == 0;
  o.bad_streams = seed % 2;
  o.big_commands = seed % 3 == 0;
  o.mixed_streams = seed % 4 != 1;
  o.max_cols = 4;
  o.max_rows = 30;
  o.short_file = false;
  const Case c = make_case(seed, o);
  g_file = c.file;
  g_what = fmt::format("{} compressed file, {} rows of {} bytes", comp == RLE ? "RLE" : "RDC", c.rows.size(), c.row_length);
  announce();
  g_nontrivial += c.rows.size();
  read_rows_checked(c, true);
}

// ---- C03
static Case simple_case(u64 seed, Opts o) {
  const Case c = make_case(seed, o);
  g_file = c.file;
  g_what = fmt::format("{} endian, {} bit, compression {}, {} columns, row length {}, {} rows, page length {}", c.big ? "big" : "little", c.b64 ? 64 : 32, int(c.comp), c.cols.size(), c.row_length, c.rows.size(), c.page_length);
  announce();
  return c;
}
template <class F> static void for_cells(const Case &c, F f) {
  auto rec = std::make_shared<Rec>();
  sas::Reader rd(mem(c.file), RecSink{rec});
  rd.read_all();
  if (rec->columns.size() != c.cols.size()) fail("number of columns");
  size_t n = 0;
  for (auto &e : rec->ev) {
    if (e.kind != 1) continue;
    if (n >= c.rows.size()) fail("too many rows");
    // the bytes that the sink was given are those of the row (C05): evaluate the real columns on them
    for (size_t k = 0; k < c.cols.size(); ++k) f(n, c.cols[k], rec->columns[k], e.data);
    ++n;
  }
  if (n != c.rows.size()) fail("number of rows");
}
static void c03(u64 seed) {
  Opts o;
  o.num_heavy = true;
  const Case c = simple_case(seed, o);
  for_cells(c, [&](size_t i, const Col &k, const sas::Column &col, const Bytes &b) {
    const std::string where = fmt::format("row {} column {} ({} bytes at {}: {})", i, show(k.name), k.len, k.off, hex(b.data() + k.off, k.len));
    if (k.kind == K_NUM || k.kind == K_DT || k.kind == K_DATE || k.kind == K_TIME) {
      ++g_nontrivial;
      const double want = cell_double(c, k, c.rows[i].data.data());
      const double got = k.kind == K_NUM ? col.get_number(b.data()) : col.get_number(b.data());
      if (std::memcmp(&want, &got, 8)) fail(fmt::format("{}: number {} ({}), expected {} ({})", where, got, hex(&got, 8), want, hex(&want, 8)));
    } else if (k.kind == K_I8 || k.kind == K_I16) {
      ++g_nontrivial;
      const int64_t want = cell_int(c, k, c.rows[i].data.data());
      same(int64_t(col.get_integer(b.data())), want, where + " integer");
      same(col.get_number(b.data()), double(want), where + " integer as number");
    }
  });
}
// ---- C04
static void c04(u64 seed) {
  Opts o;
  o.text_heavy = true;
  const Case c = simple_case(seed, o);
  for_cells(c, [&](size_t i, const Col &k, const sas::Column &col, const Bytes &b) {
    if (k.kind != K_STR) return;
    ++g_nontrivial;
    const auto want = cell_str(k, c.rows[i].data.data());
    same_text(std::string(col.get_string(b.data())), want, fmt::format("row {} column {}", i, show(k.name)));
    same_text(col.to_string(b.data()), want, fmt::format("row {} column {} as text", i, show(k.name)));
  });
  sas::Reader rd(mem(c.file), sas::datasink::null());
  const auto &p = rd.properties();
  same_text(p.dataset_name, c.dataset_name, "dataset name");
  same_text(p.file_type, c.file_type, "file type");
  same_text(p.sas_release, c.sas_release, "SAS release");
  same_text(p.sas_server_type, c.server_type, "server type");
  same_text(p.os_type, c.os_type, "OS type");
  same_text(p.os_name, c.os_name, "OS name");
  for (size_t k = 0; k < c.cols.size(); ++k) {
    same_text(p.columns[k].name, c.cols[k].name, fmt::format("name of column {}", k));
    same_text(p.columns[k].label, c.cols[k].label, fmt::format("label of column {}", k));
    same_text(p.columns[k].format, c.cols[k].format, fmt::format("format of column {}", k));
  }
}
// ---- C05
static void c05(u64 seed) {
  Opts o;
  o.pages_like = seed % 2;
  o.max_cols = 5;
  o.max_rows = seed % 5 == 0 ? 300 : 60;
  o.max_page = seed % 3 ? 1200 : 9000;
  const Case c = simple_case(seed, o);
  g_nontrivial += c.rows.size();
  read_rows_checked(c, false);
  auto rec = std::make_shared<Rec>();
  // the same from a real file
  const std::string fn = g_outdir + "/c05.sas7bdat";
  std::ofstream(fn, std::ios::binary).write(reinterpret_cast<const char *>(c.file.data()), long(c.file.size()));
  sas::Reader rd(sas::datasource::ifstream(fn.c_str()), RecSink{rec});
  rd.read_all();
  ::unlink(fn.c_str());
  size_t n = 0;
  for (auto &e : rec->ev) if (e.kind == 1) {
    if (n >= c.rows.size()) fail("more rows than stored");
    same(e.index, n, "index of the row");
    check_row(c, n++, e.data);
  }
  same(n, c.rows.size(), "number of rows read from the file");
}
// ---- C06
static void c06(u64 seed) {
  Opts o;
  o.max_cols = 3;
  o.max_rows = seed % 3 ? 12 : 60;
  o.pages_like = seed % 2;
  o.bad_streams = false;
  const Case c = simple_case(seed, o);
  Rng r(seed ^ 0xC06);
  auto rec = std::make_shared<Rec>();
  sas::Reader rd0(mem(c.file), RecSink{rec});
  sas::Reader rd;
  if (r.chance(50)) { // the empty reader, then moved to
    if (r.chance(70)) {
      if (rd.read_row() || rd.read_rows(r.below(3) + 1) || rd.skip(1 + r.below(3)) || rd.read_row_no_sink() || rd.current_row_index()) fail("default constructed reader delivers something");
      rd.read_all();
      rd.end_of_data();
      same(rd.properties().columns.size(), size_t(0), "columns of the empty reader");
    }
    rd = std::move(rd0);
  } else { sas::Reader t(std::move(rd0)); rd = std::move(t); }
  size_t pos = 0;
  const size_t total = c.rows.size();
  std::string ops;
  auto expect_ev = [&](size_t from, const std::vector<std::pair<int, size_t>> &want) {
    if (rec->ev.size() - from != want.size()) fail(fmt::format("after {}: {} events at the sink, {} expected", ops, rec->ev.size() - from, want.size()));
    for (size_t k = 0; k < want.size(); ++k) {
      const auto &e = rec->ev[from + k];
      if (e.kind != want[k].first) fail(fmt::format("after {}: event {} is of kind {}, expected {}", ops, k, e.kind, want[k].first));
      if (e.kind == 1) {
        same(e.index, want[k].second, "after " + ops + ": row index");
        check_row(c, e.index, e.data);
      }
    }
  };
  expect_ev(0, {{0, 0}});
  const size_t nops = r.range(3, 14);
  for (size_t k = 0; k < nops; ++k) {
    ++g_nontrivial;
    const size_t from = rec->ev.size();
    std::vector<std::pair<int, size_t>> want;
    const size_t left = total - pos;
    switch (r.below(7)) {
    case 0: case 1: {
      ops += " read_row";
      const bool got = rd.read_row();
      if (left) want.push_back({1, pos}), ++pos;
      else want.push_back({2, 0});
      same(got, left > 0, "after" + ops + ": result");
      break;
    }
    case 2: {
      const size_t n = r.chance(15) ? 0 : r.chance(20) ? left : r.chance(15) ? left + 1 + r.below(5) : r.below(6);
      ops += fmt::format(" read_rows({})", n);
      const bool got = rd.read_rows(n);
      for (size_t i = 0; i < std::min(n, left); ++i) want.push_back({1, pos++});
      if (n > left) want.push_back({2, 0});
      same(got, n <= left, "after" + ops + ": result");
      break;
    }
    case 3: {
      if (r.chance(60)) { --k; continue; }
      ops += " read_all";
      rd.read_all();
      for (size_t i = 0; i < left; ++i) want.push_back({1, pos++});
      want.push_back({2, 0});
      break;
    }
    case 4: {
      const size_t n = r.chance(10) ? 0 : r.chance(20) ? left : r.chance(15) ? left + 1 + r.below(5) : r.chance(3) ? ~size_t(0) : r.below(6);
      ops += fmt::format(" skip({})", n);
      const bool got = rd.skip(n);
      pos += std::min(n, left);
      if (n > left) want.push_back({2, 0});
      same(got, n <= left, "after" + ops + ": result");
      break;
    }
    case 5: {
      ops += " read_row_no_sink";
      auto p = rd.read_row_no_sink();
      same(p != nullptr, left > 0, "after" + ops + ": result");
      if (p) {
        check_row(c, pos, Bytes(static_cast<const u8 *>(p), static_cast<const u8 *>(p) + c.row_length));
        ++pos;
      }
      break;
    }
    case 6: {
      if (r.chance(70)) { --k; continue; }
      ops += " end_of_data";
      rd.end_of_data();
      want.push_back({2, 0});
      break;
    }
    }
    expect_ev(from, want);
    same(rd.current_row_index(), pos, "after" + ops + ": current_row_index");
  }
}
// ---- C07
#include "encodings_ref.hpp"
static std::string dt_text(const Instant &i) { return i.special ? "not-a-date-time" : iso_date(i.days) + " " + iso_time(i.us); }
static Instant real_instant(const sas::DATETIME &x) {
  if (x.is_special()) return {true, 0, 0, false};
  const long d = (x.date() - boost::gregorian::date(1960, 1, 1)).days();
  return {false, d, x.time_of_day().total_microseconds(), false};
}
static void same_instant(const sas::DATETIME &got, double s, const std::string &what) {
  const Instant w = instant_of_seconds(s), g = real_instant(got);
  if (g.special != w.special) {
    if (w.near_tie || (!g.special && (g.days == DAY_MAX + 1 || g.days == DAY_MIN - 1))) return;
    fail(fmt::format("{}: {} -> {}, expected {}", what, s, dt_text(g), dt_text(w)));
  }
  if (g.special) {
    if (!got.is_not_a_date_time()) fail(what + ": an infinite date");
    return;
  }
  const __int128 D = 86400000000LL;
  const __int128 diff = (__int128(g.days) * D + g.us) - (__int128(w.days) * D + w.us);
  const __int128 tol = w.near_tie ? 1 : 0;
  if (diff > tol || -diff > tol) fail(fmt::format("{}: {} -> {}, expected {}", what, s, dt_text(g), dt_text(w)));
}
static void c07(u64 seed) {
  Opts o;
  o.max_cols = 3;
  o.max_rows = 4;
  const Case c = simple_case(seed, o);
  sas::Reader rd(mem(c.file), sas::datasink::null());
  const auto &p = rd.properties();
  ++g_nontrivial;
  same(int(p.format == sas::Format::bit64), int(c.b64), "64 bit");
  same(int(p.endianness == sas::Endian::big), int(c.big), "big endian");
  same(int(p.endianness == sas::Endian::little), int(!c.big), "little endian");
  same(int(p.platform), int(c.platform == '1' ? sas::Platform::unix : c.platform == '2' ? sas::Platform::windows : sas::Platform::unknown), "platform");
  same_text(p.encoding, encoding_ref(c.encoding), fmt::format("encoding {}", c.encoding));
  same_text(p.dataset_name, c.dataset_name, "dataset name");
  same_text(p.file_type, c.file_type, "file type");
  same_instant(p.date_created, c.created, "date created");
  same_instant(p.date_modified, c.modified, "date modified");
  same(p.header_length, c.header_length, "header length");
  same(p.page_length, c.page_length, "page length");
  same(p.page_count, c.page_count, "page count");
  same_text(p.sas_release, c.sas_release, "SAS release");
  same_text(p.sas_server_type, c.server_type, "server type");
  same_text(p.os_type, c.os_type, "OS type");
  same_text(p.os_name, c.os_name, "OS name");
  // the rest of the file is decoded alike
  same(p.row_length, c.row_length, "row length");
  same(p.row_count, c.row_count, "row count");
  same(p.columns.size(), c.cols.size(), "columns");
}
// ---- C08
static sas::Column::Type type_of(Kind k) {
  using T = sas::Column::Type;
  switch (k) {
  case K_STR: return T::string;
  case K_I8: case K_I16: return T::integer;
  case K_NUM: return T::number;
  case K_DT: return T::datetime;
  case K_DATE: return T::date;
  case K_TIME: return T::time;
  default: return T::unknown;
  }
}
static void check_columns(const Case &c, const sas::COLUMNS &cols, const std::vector<size_t> &want, bool lengths = true) {
  same(cols.size(), want.size(), "number of columns");
  for (size_t i = 0; i < want.size(); ++i) {
    const Col &k = c.cols[want[i]];
    same_text(cols[i].name, k.name, fmt::format("name of column {}", i));
    same_text(cols[i].label, k.label, fmt::format("label of column {}", i));
    same_text(cols[i].format, k.format, fmt::format("format of column {}", i));
    if (cols[i].type != type_of(k.kind)) fail(fmt::format("type of column {} (stored as {} of {} bytes, format {}): {}, expected {}", i, k.num ? "number" : "text", k.len, show(k.format), sas::to_string(cols[i].type), sas::to_string(type_of(k.kind))));
    if (lengths) same(cols[i].length(), k.len, fmt::format("length of column {}", i));
  }
}
static void check_cell(const Case &c, const Col &k, const sas::Column &col, const u8 *row, const u8 *model, const std::string &where) {
  switch (k.kind) {
  case K_STR: same_text(std::string(col.get_string(row)), cell_str(k, model), where); break;
  case K_I8: case K_I16: same(int64_t(col.get_integer(row)), cell_int(c, k, model), where); break;
  case K_NUM: {
    const double a = col.get_number(row), b = cell_double(c, k, model);
    if (std::memcmp(&a, &b, 8)) fail(fmt::format("{}: {} expected {}", where, a, b));
    break;
  }
  default: break;
  }
}
static void c08(u64 seed) {
  Opts o;
  o.max_cols = seed % 4 == 0 ? 60 : 12;
  o.max_rows = 5;
  o.date_heavy = seed % 3 == 0;
  const Case c = simple_case(seed, o);
  g_nontrivial += c.cols.size();
  sas::Reader rd(mem(c.file), sas::datasink::null());
  const auto &p = rd.properties();
  same(p.row_length, c.row_length, "row length");
  same(p.row_count, c.row_count, "row count");
  same(p.column_count, c.column_count, "column count");
  same(p.col_count_p1, c.p1, "column count p1");
  same(p.col_count_p2, c.p2, "column count p2");
  same(p.mix_page_row_count, c.mix, "mixed page row count");
  same(int(p.compression), int(c.comp == NONE ? sas::Compression::none : c.comp == RLE ? sas::Compression::RLE : sas::Compression::RDC), "compression");
  same_text(p.creator, c.creator, "creator");
  same_text(p.creator_proc, c.creator_proc, "creator procedure");
  same(p.lcs, c.lcs, "lcs");
  same(p.lcp, c.lcp, "lcp");
  std::vector<size_t> all;
  for (size_t i = 0; i < c.cols.size(); ++i) all.push_back(i);
  check_columns(c, p.columns, all);
  // offsets show in the cells
  for_cells(c, [&](size_t i, const Col &k, const sas::Column &col, const Bytes &b) { check_cell(c, k, col, b.data(), c.rows[i].data.data(), fmt::format("row {} column {}", i, show(k.name))); });
}
// ---- C09
struct AnyFilter {
  std::shared_ptr<std::vector<std::string>> asked;
  u64 salt;
  bool accept(const sas::Column &c) const { asked->push_back(c.name); return ((asked->size() * salt) >> 7) & 1; }
};
static void c09(u64 seed) {
  Opts o;
  o.max_cols = 14;
  o.max_rows = 8;
  o.date_heavy = seed % 4 == 0;
  const Case c = simple_case(seed, o);
  Rng r(seed ^ 0xC09);
  std::set<std::string> inc, exc;
  for (auto &k : c.cols) {
    if (r.chance(35)) inc.insert(k.name);
    if (r.chance(35)) exc.insert(k.name);
  }
  if (r.chance(20)) inc.clear();
  if (r.chance(20)) exc.clear();
  if (r.chance(30)) inc.insert("absent");
  if (r.chance(30)) exc.insert("absent");
  if (r.chance(20) && !c.cols.empty()) inc.insert(c.cols[0].name + " ");
  std::vector<size_t> want;
  auto rec = std::make_shared<Rec>();
  sas::Reader rd;
  const int mode = int(r.below(5));
  for (size_t i = 0; i < c.cols.size(); ++i) {
    const auto &n = c.cols[i].name;
    const bool in = inc.count(n), ex = exc.count(n);
    bool a = true;
    if (mode == 1) a = in;
    if (mode == 2) a = !ex;
    if (mode == 3) a = !inc.empty() ? in : !ex;
    if (a) want.push_back(i);
  }
  if (mode == 0) rd = sas::Reader(mem(c.file), RecSink{rec}, sas::ColumnFilter::AcceptAll());
  if (mode == 1) { sas::ColumnFilter::Include f; f.included = inc; rd = sas::Reader(mem(c.file), RecSink{rec}, f); }
  if (mode == 2) { sas::ColumnFilter::Exclude f; f.excluded = exc; rd = sas::Reader(mem(c.file), RecSink{rec}, f); }
  if (mode == 3) { sas::ColumnFilter::IncludeExclude f; f.included = inc; f.excluded = exc; rd = sas::Reader(mem(c.file), RecSink{rec}, f); }
  if (mode == 4) {
    AnyFilter f{std::make_shared<std::vector<std::string>>(), r.next()};
    auto asked = f.asked;
    const u64 salt = f.salt;
    rd = sas::Reader(mem(c.file), RecSink{rec}, std::move(f));
    same(asked->size(), c.cols.size(), "columns offered to the filter");
    want.clear();
    for (size_t i = 0; i < c.cols.size(); ++i) {
      same_text((*asked)[i], c.cols[i].name, "column offered to the filter");
      if ((((i + 1) * salt) >> 7) & 1) want.push_back(i);
    }
  }
  g_nontrivial += want.size();
  g_what += fmt::format(", filter kind {}", mode);
  check_columns(c, rd.properties().columns, want);
  check_columns(c, rec->columns, want);
  // column_count, the rows read and the cells stay the same
  rd.read_all();
  size_t n = 0;
  for (auto &e : rec->ev) if (e.kind == 1) {
    check_row(c, n, e.data);
    for (size_t k = 0; k < want.size(); ++k) check_cell(c, c.cols[want[k]], rec->columns[k], e.data.data(), c.rows[n].data.data(), fmt::format("row {} column {}", n, show(rec->columns[k].name)));
    ++n;
  }
  same(n, c.rows.size(), "rows read with a filter");
  // the split by type
  const sas::Columns split(rd.properties().columns);
  using T = sas::Column::Type;
  auto part = [&](const sas::COLUMNS &got, T t) {
    std::vector<size_t> w;
    for (size_t i : want) if (type_of(c.cols[i].kind) == t) w.push_back(i);
    check_columns(c, got, w);
  };
  part(split.strings, T::string);
  part(split.numbers, T::number);
  part(split.integers, T::integer);
  part(split.datetimes, T::datetime);
  part(split.dates, T::date);
  part(split.times, T::time);
}
// ---- C10
static void check_when(const Case &c, const Col &k, const sas::Column &col, const u8 *row, const u8 *model, const std::string &where) {
  const double d = cell_double(c, k, model);
  if (k.kind == K_DATE) {
    const auto got = col.get_date(row);
    const double rd = std::round(d);
    const bool special = std::isnan(d) || std::isinf(d) || rd < double(DAY_MIN) || rd > double(DAY_MAX);
    if (special != got.is_special()) fail(fmt::format("{}: date {} is {}a date", where, d, special ? "" : "not "));
    if (special) { if (!got.is_not_a_date()) fail(where + ": infinite date"); return; }
    const auto w = civil(long(rd) + EPOCH);
    if (got.year() != w.y || got.month() != w.m || got.day() != w.d) fail(fmt::format("{}: {} days -> {}-{}-{}, expected {}-{}-{}", where, d, int(got.year()), int(got.month()), int(got.day()), w.y, w.m, w.d));
  } else if (k.kind == K_DT) {
    same_instant(col.get_datetime(row), d, where);
  } else if (k.kind == K_TIME) {
    const auto got = col.get_time(row);
    const Instant w = instant_of_seconds(d);
    if (w.near_tie) return;
    if (w.special != got.is_special()) fail(fmt::format("{}: time {}", where, d));
    if (!w.special && got.total_microseconds() != w.us) fail(fmt::format("{}: time {} -> {} us, expected {}", where, d, got.total_microseconds(), w.us));
  }
}
static void c10(u64 seed) {
  Opts o;
  o.date_heavy = true;
  o.comp = seed % 3 ? 0 : -1;
  const Case c = simple_case(seed, o);
  for_cells(c, [&](size_t i, const Col &k, const sas::Column &col, const Bytes &b) {
    if (k.kind != K_DT && k.kind != K_DATE && k.kind != K_TIME) return;
    ++g_nontrivial;
    check_when(c, k, col, b.data(), c.rows[i].data.data(), fmt::format("row {} column {} ({} bytes, {})", i, show(k.name), k.len, k.format));
  });
}
// ---- C11
struct TouchSink { // evaluates every column, as any sink may
  sas::COLUMNS cols;
  void set_properties(const sas::Properties &p) { cols = sas::COLUMNS(p.columns); }
  void push_row(size_t, sas::Column::PBUF p) {
    for (auto &c : cols) {
      (void)c.get_string(p);
      (void)c.get_number(p);
      (void)c.get_integer(p);
      (void)c.get_datetime(p);
      (void)c.get_date(p);
      (void)c.get_time(p);
      const auto s = c.to_string(p);
      if (s.size() > 1000000) std::abort();
    }
  }
  void end_of_data() {}
};
static void c11(u64 seed) {
  Opts o;
  o.bad_streams = true;
  o.small_header = seed % 2;
  o.max_page = seed % 3 ? 600 : 9000;
  o.max_rows = 20;
  Case c = make_case(seed / 8, o);
  Rng r(seed ^ 0xC11);
  Bytes f = c.file;
  const size_t n = r.chance(5) ? 0 : r.range(1, r.chance(60) ? 3 : 12);
  for (size_t k = 0; k < n; ++k) {
    size_t at;
    const int m = int(r.below(10));
    if (m < 6 && !c.fields.empty()) at = r.pick(c.fields);
    else if (m < 9 && !c.pages.empty()) { // within a subheader that a pointer designates
      const size_t p = r.pick(c.pages);
      at = p + r.below(c.page_length);
    } else at = r.below(f.size());
    if (at >= f.size()) continue;
    const int w = int(r.below(8));
    if (w == 0) f[at] = u8(f[at] + 1);
    else if (w == 1) f[at] = u8(f[at] - 1);
    else if (w == 2) f[at] = 0xFF;
    else if (w == 3) f[at] = 0;
    else if (w == 4) f[at] ^= u8(1u << r.below(8));
    else if (w == 5) { // a whole integer
      const size_t I = r.chance(50) ? 4 : 8;
      u64 v = r.pick(std::vector<u64>{0, 1, 2, 7, 255, 256, 512, 640, 0x7FFFFFFF, 0xFFFFFFFF, 0x7FFFFFFFFFFFFFFFull, ~0ull, ~0ull - 8, c.page_length, c.page_length - 1, c.page_length + 1, c.row_length, c.row_length + 1, 0xFFFFFFFFFFFFF000ull});
      for (size_t j = 0; j < I && at + j < f.size(); ++j) f[at + (c.big ? I - 1 - j : j) < f.size() ? at + (c.big ? I - 1 - j : j) : at] = u8(v >> (8 * j));
    } else if (w == 6) { // small number in two bytes
      const u64 v = r.below(2000);
      if (at + 1 < f.size()) f[at] = u8(c.big ? v >> 8 : v), f[at + 1] = u8(c.big ? v : v >> 8);
    } else f[at] = u8(r.next());
  }
  // keep allocations reasonable: running out of memory is not the point
  const size_t a1 = f.size() > 35 && f[35] == '3' ? 4 : 0;
  const bool big = f.size() > 37 && f[37] != 1;
  for (size_t at : {196 + a1, 200 + a1}) if (at + 4 <= f.size()) f[at + (big ? 0 : 3)] = 0;
  if (r.chance(10)) f.resize(r.below(f.size() + 1));
  if (r.chance(3)) { f = Bytes(r.below(3000)); for (auto &x : f) x = u8(r.next()); if (f.size() > 288) std::memcpy(f.data(), c.file.data(), 200); }
  g_file = f;
  g_what = "damaged file";
  announce();
  ++g_nontrivial;
  for (int pass = 0; pass < 2; ++pass) {
    alarm(20);
    try {
      auto s = mem(f);
      sas::Reader rd(std::move(s), TouchSink());
      // every call must come back; the number of rows may be absurd
      u64 budget = 3000;
      if (pass == 1) { (void)rd.skip(r.below(5)); }
      while (budget--) {
        bool more = false;
        try {
          if (pass == 1 && r.chance(20)) { more = rd.skip(1 + r.below(3)); }
          else more = rd.read_row();
        } catch (const std::bad_alloc &) {
          throw;
        } catch (const std::exception &) {
          more = true; // a reader may be used further after an error
          budget -= std::min<u64>(budget, 50);
        }
        if (!more) break;
      }
    } catch (const std::exception &) {
    }
    alarm(0);
  }
}
// ---- C12 C13
static std::string stream_text(const std::string &) { return {}; }
template <class T> static std::string ostr(const T &x) { std::ostringstream o; o << x; return o.str(); }
static sas::DATETIME to_ptime(double d) {
  const Instant w = instant_of_seconds(d);
  if (w.special) return sas::DATETIME();
  const auto v = civil(w.days + EPOCH);
  return sas::DATETIME(sas::DATE(u64(v.y) & 0xFFFF, (unsigned short)v.m, (unsigned short)v.d), boost::posix_time::microseconds(w.us));
}
static sas::DATE to_date(double d) {
  const double rd = std::round(d);
  if (std::isnan(d) || std::isinf(d) || rd < double(DAY_MIN) || rd > double(DAY_MAX)) return sas::DATE(boost::posix_time::not_a_date_time);
  const auto v = civil(long(rd) + EPOCH);
  return sas::DATE((unsigned short)v.y, (unsigned short)v.m, (unsigned short)v.d);
}
static sas::TIME to_time(double d) {
  const Instant w = instant_of_seconds(d);
  if (w.special) return sas::TIME(boost::posix_time::not_a_date_time);
  return boost::posix_time::microseconds(w.us);
}
static bool any_near_tie(const Case &c, size_t i) {
  for (auto &k : c.cols) if ((k.kind == K_DT || k.kind == K_TIME) && instant_of_seconds(cell_double(c, k, c.rows[i].data.data())).near_tie) return true;
  return false;
}
static std::string csv_field(const Case &c, const Col &k, const u8 *row) {
  switch (k.kind) {
  case K_STR: return "\"" + cell_str(k, row) + "\"";
  case K_I8: case K_I16: return std::to_string(cell_int(c, k, row));
  case K_NUM: { const double d = cell_double(c, k, row); return std::isnan(d) ? "" : fmt::format("{}", d); }
  case K_DT: return ostr(to_ptime(cell_double(c, k, row)));
  case K_DATE: return ostr(to_date(cell_double(c, k, row)));
  case K_TIME: return ostr(to_time(cell_double(c, k, row)));
  default: return "";
  }
}
static std::string csv_text(const Case &c) {
  std::string s;
  for (size_t k = 0; k < c.cols.size(); ++k) s += (k ? ",\"" : "\"") + c.cols[k].name + "\"";
  s += "\n";
  for (auto &w : c.rows) {
    for (size_t k = 0; k < c.cols.size(); ++k) s += (k ? "," : "") + csv_field(c, c.cols[k], w.data.data());
    s += "\n";
  }
  return s;
}
static void same_output(const std::string &got, const std::string &want, const std::string &what) {
  if (got == want) return;
  size_t k = 0, line = 1, start = 0;
  while (k < got.size() && k < want.size() && got[k] == want[k]) { if (got[k] == '\n') ++line, start = k + 1; ++k; }
  fail(fmt::format("{} differs at byte {} (line {})\n  got    {}\n  wanted {}", what, k, line, show(got.substr(start, 300)), show(want.substr(start, 300))));
}
static Opts sink_opts(u64 seed) {
  Opts o;
  o.max_rows = 12;
  o.max_cols = seed % 5 == 0 ? 30 : 8;
  o.date_heavy = seed % 3 == 0;
  o.text_heavy = seed % 3 == 1;
  return o;
}
static void c12(u64 seed) {
  const Case c = simple_case(seed, sink_opts(seed));
  for (size_t i = 0; i < c.rows.size(); ++i) if (any_near_tie(c, i)) return;
  g_nontrivial += c.rows.size() * c.cols.size();
  std::ostringstream os;
  sas::Reader rd(mem(c.file), sas::datasink::csv(os));
  if (seed % 2) rd.read_all();
  else while (rd.read_row()) {}
  same_output(os.str(), csv_text(c), "CSV output");
  if (seed % 4 == 0) {
    const std::string fn = g_outdir + "/c12.csv";
    {
      sas::Reader r2(mem(c.file), sas::datasink::csv(fn.c_str()));
      r2.read_all();
    }
    std::ifstream is(fn, std::ios::binary);
    std::stringstream ss;
    ss << is.rdbuf();
    same_output(ss.str(), csv_text(c), "CSV file");
    ::unlink(fn.c_str());
  }
}
static std::string cell_text(const Case &c, const Col &k, const u8 *row) {
  switch (k.kind) {
  case K_STR: return cell_str(k, row);
  case K_I8: case K_I16: return std::to_string(cell_int(c, k, row));
  case K_NUM: { char b[400]; std::snprintf(b, sizeof b, "%f", cell_double(c, k, row)); return b; }
  case K_DT: { const auto i = instant_of_seconds(cell_double(c, k, row)); return i.special ? "not-a-date-time" : iso_date(i.days) + " " + iso_time(i.us); }
  case K_DATE: { const double d = std::round(cell_double(c, k, row)); return !(d >= double(DAY_MIN) && d <= double(DAY_MAX)) ? "not-a-date-time" : iso_date(long(d)); }
  case K_TIME: { const auto i = instant_of_seconds(cell_double(c, k, row)); return i.special ? "not-a-date-time" : iso_time(i.us); }
  default: return "";
  }
}
static std::string print_text(const Case &c) {
  std::string s = "Properties:\n";
  auto p = [&](const char *n, const std::string &v) { s += std::string("  ") + n + ": " + v + "\n"; };
  p("format", c.b64 ? "64bits" : "32bits");
  p("endianness", c.big ? "big" : "little");
  p("platform", c.platform == '1' ? "unix" : c.platform == '2' ? "windows" : "unknown");
  p("date created", ostr(to_ptime(c.created)));
  p("date modified", ostr(to_ptime(c.modified)));
  p("dataset name", c.dataset_name);
  p("encoding", encoding_ref(c.encoding));
  p("file type", c.file_type);
  p("SAS release", c.sas_release);
  p("SAS server type", c.server_type);
  p("OS type", c.os_type);
  p("OS name", c.os_name);
  p("compression", c.comp == NONE ? "none" : c.comp == RLE ? "RLE" : "RDC");
  p("creator", c.creator);
  p("creator proc", c.creator_proc);
  p("row count", std::to_string(c.row_count));
  p("column count", std::to_string(c.column_count));
  s += "Columns:\n";
  for (size_t k = 0; k < c.cols.size(); ++k) {
    s += "  - column #" + std::to_string(k) + "\n";
    s += "    name: " + c.cols[k].name + "\n    label: " + c.cols[k].label + "\n    format: " + c.cols[k].format + "\n    type: " + std::string(sas::to_string(type_of(c.cols[k].kind))) + "\n";
  }
  s += "Data:\n#";
  for (auto &k : c.cols) s += "," + k.name;
  s += "\n";
  for (size_t i = 0; i < c.rows.size(); ++i) {
    s += std::to_string(i);
    for (auto &k : c.cols) s += "," + cell_text(c, k, c.rows[i].data.data());
    s += "\n";
  }
  return s;
}
static void c13(u64 seed) {
  const Case c = simple_case(seed, sink_opts(seed));
  for (size_t i = 0; i < c.rows.size(); ++i) if (any_near_tie(c, i)) return;
  if (instant_of_seconds(c.created).near_tie || instant_of_seconds(c.modified).near_tie) return;
  g_nontrivial += c.rows.size() * c.cols.size();
  std::ostringstream os;
  sas::Reader rd(mem(c.file), sas::datasink::print(os));
  rd.read_all();
  same_output(os.str(), print_text(c), "printed output");
}
// ---- C14
struct BadSource { // fails at the k-th read without being at the end
  MemSource m;
  size_t k;
  bool eof() { return false; }
  bool read_bytes(void *p, size_t n) {
    if (k-- == 0) return false;
    return m.read_bytes(p, n);
  }
};
static size_t count_rows(const std::string &fn) {
  auto rec = std::make_shared<Rec>();
  sas::Reader rd(sas::datasource::ifstream(fn.c_str()), RecSink{rec});
  rd.read_all();
  size_t n = 0;
  for (auto &e : rec->ev) n += e.kind == 1;
  return n;
}
template <class F> static void must_throw(F f, const std::string &what) {
  ++g_nontrivial;
  try {
    f();
  } catch (const std::exception &) {
    return;
  }
  fail(what + ": not reported");
}
static void c14(u64 seed) {
  Opts o;
  o.small_header = true;
  o.max_page = 300;
  o.max_rows = 12;
  o.short_file = false;
  const Case c = simple_case(seed, o);
  Rng r(seed ^ 0xC14);
  const std::string fn = g_outdir + "/c14.sas7bdat";
  auto put = [&](const Bytes &b) {
    g_file = b;
    std::ofstream(fn, std::ios::binary | std::ios::trunc).write(reinterpret_cast<const char *>(b.data()), long(b.size()));
  };
  const size_t a1 = c.a1 ? 4 : 0;
  auto set4 = [&](Bytes &b, size_t at, u64 v) { for (size_t k = 0; k < 4; ++k) b[at + (c.big ? 3 - k : k)] = u8(v >> (8 * k)); };
  switch (seed % 8) {
  case 0: case 1: { // cut within the header
    Bytes b = c.file;
    b.resize(r.chance(30) ? r.below(288) : r.below(c.header_length));
    put(b);
    must_throw([&] { count_rows(fn); }, fmt::format("file cut after {} of {} header bytes", b.size(), c.header_length));
    must_throw([&] { sas::Reader rd(mem(b), sas::datasink::null()); rd.read_all(); }, fmt::format("source cut after {} of {} header bytes", b.size(), c.header_length));
    break;
  }
  case 2: { // magic
    Bytes b = c.file;
    b[r.below(32)] ^= u8(1u << r.below(8));
    put(b);
    must_throw([&] { count_rows(fn); }, "wrong magic number");
    break;
  }
  case 3: { // impossible lengths
    Bytes b = c.file;
    const size_t ta = a1 + (c.b64 ? 4 : 0);
    set4(b, 196 + a1, r.chance(50) ? r.below(288 + ta) : r.below(288));
    put(b);
    must_throw([&] { count_rows(fn); }, "impossible header length");
    b = c.file;
    set4(b, 200 + a1, r.below((c.b64 ? 32 : 16) + 8));
    put(b);
    must_throw([&] { count_rows(fn); }, "impossible page length");
    break;
  }
  case 4: case 5: { // cut within a page that is needed
    // every page up to the one with the last row is read
    std::vector<size_t> cuts;
    for (int k = 0; k < 12; ++k) cuts.push_back(r.range(c.header_length + 1, c.file.size() - 1));
    for (size_t cut : cuts) {
      Bytes b = c.file;
      b.resize(cut);
      const size_t in = (cut - c.header_length) % c.page_length;
      put(b);
      auto rec = std::make_shared<Rec>();
      bool threw = false;
      try {
        sas::Reader rd(sas::datasource::ifstream(fn.c_str()), RecSink{rec});
        rd.read_all();
      } catch (const std::exception &) {
        threw = true;
      }
      size_t n = 0;
      for (auto &e : rec->ev) n += e.kind == 1;
      ++g_nontrivial;
      if (!threw && in && n < c.rows.size()) fail(fmt::format("file cut at {} (byte {} of a page of {}) is read as complete with {} of {} rows", cut, in, c.page_length, n, c.rows.size()));
      if (n > c.rows.size()) fail("more rows than stored");
    }
    break;
  }
  case 6: { // failing source: any read
    const size_t pages = c.pages.size() + 2;
    for (size_t k = 0; k < pages; ++k) {
      auto rec = std::make_shared<Rec>();
      bool threw = false;
      try {
        sas::Reader rd(BadSource{mem(c.file), k}, RecSink{rec});
        rd.read_all();
      } catch (const std::exception &) {
        threw = true;
      }
      size_t n = 0;
      for (auto &e : rec->ev) n += e.kind == 1;
      ++g_nontrivial;
      if (!threw && n < c.rows.size()) fail(fmt::format("failure of read {} of the source is not reported ({} of {} rows)", k, n, c.rows.size()));
    }
    break;
  }
  case 7: {
    must_throw([&] { count_rows(g_outdir + "/no/such/file"); }, "missing file");
    must_throw([&] { count_rows(g_outdir); }, "a directory");
    put({});
    must_throw([&] { count_rows(fn); }, "empty file");
    Bytes b(r.range(300, 3000));
    for (auto &x : b) x = u8(r.next());
    put(b);
    must_throw([&] { count_rows(fn); }, "foreign file");
    std::string text;
    for (int k = 0; k < 200; ++k) text += "a,b,c\n";
    put(Bytes(text.begin(), text.end()));
    must_throw([&] { count_rows(fn); }, "text file");
    break;
  }
  }
  ::unlink(fn.c_str());
}
// ---- C18
static void c18(u64 seed) {
  Rng r(seed ^ 0xC18);
  g_what = "to_string";
  g_file.clear();
  announce();
  for (int k = 0; k < 300; ++k) {
    ++g_nontrivial;
    long days = r.chance(20) ? DAY_MIN + long(r.below(400)) : r.chance(20) ? DAY_MAX - long(r.below(400)) : DAY_MIN + long(r.below(u64(DAY_MAX - DAY_MIN + 1)));
    const long D = 86400000000L;
    long us = r.chance(10) ? 0 : r.chance(20) ? D - 1 - long(r.below(3)) : r.chance(30) ? long(r.below(86400)) * 1000000 : r.chance(30) ? long(r.below(86400)) * 1000000 + long(r.below(12)) : long(r.below(u64(D)));
    if (r.chance(20)) us = us / 1000 * 1000;
    const auto v = civil(days + EPOCH);
    const sas::DATE d((unsigned short)v.y, (unsigned short)v.m, (unsigned short)v.d);
    const sas::DATETIME t(d, boost::posix_time::microseconds(us));
    same_text(sas::to_string(d), iso_date(days), "date as text");
    same_text(sas::to_string(t), iso_date(days) + " " + iso_time(us), "datetime as text");
    same_text(sas::to_string(sas::TIME(boost::posix_time::microseconds(us))), iso_time(us), "time as text");
    if (us) same_text(sas::to_string(sas::TIME(boost::posix_time::microseconds(-us))), "-" + iso_time(us), "negative time as text");
    // long durations
    const long h = r.chance(30) ? 0 : long(r.next() >> r.range(2, 40));
    const long big = h % 9000000000000000000L;
    same_text(sas::to_string(sas::TIME(boost::posix_time::microseconds(big))), iso_time(big), fmt::format("time of {} us as text", big));
    same_text(sas::to_string(sas::TIME(boost::posix_time::microseconds(-big))), (big ? "-" : "") + iso_time(big), fmt::format("time of -{} us as text", big));
  }
  same_text(sas::to_string(sas::TIME(boost::posix_time::not_a_date_time)), "not-a-date-time", "missing time as text");
  same_text(sas::to_string(sas::TIME(boost::posix_time::pos_infin)), "+infinity", "infinite time as text");
  same_text(sas::to_string(sas::TIME(boost::posix_time::neg_infin)), "-infinity", "infinite time as text");
  auto special = [&](auto x, const char *what) {
    try {
      const std::string s = sas::to_string(x);
      if (s.empty() || s.find_first_not_of("abcdefghijklmnopqrstuvwxyz-+") != s.npos) fail(std::string(what) + " renders as " + show(s));
    } catch (const Mismatch &) {
      throw;
    } catch (const std::exception &) {
    }
  };
  special(sas::DATE(boost::posix_time::not_a_date_time), "missing date");
  special(sas::DATE(boost::posix_time::pos_infin), "infinite date");
  special(sas::DATETIME(), "missing datetime");
  special(sas::DATETIME(boost::posix_time::neg_infin), "infinite datetime");
}

// ---- emit
static std::string js(const std::string &s) {
  std::string r = "\"";
  for (unsigned char c : s) r += c >= 32 && c < 127 && c != '"' && c != '\\' ? std::string(1, char(c)) : fmt::format("\\u{:04x}", c);
  return r + "\"";
}
static void emit(const std::string &kind, u64 seed, u64 count, const std::string &dir) {
  Rng r(seed);
  for (u64 n = 0; n < count; ++n) {
    Opts o;
    o.plain_names = true;
    o.plain_text = true;
    o.date_range = 1;
    o.finite = true;
    o.unknown_cols = false;
    o.mixed_streams = false;
    o.max_rows = n % 3 == 0 ? 30 : 12;
    o.max_cols = 8;
    o.date_heavy = n % 2;
    Case c;
    for (u64 t = 0;; ++t) {
      c = make_case(seed * 100003 + n * 131 + t, o);
      bool bad = c.cols.empty();
      for (size_t i = 0; i < c.rows.size(); ++i) bad = bad || any_near_tie(c, i) || c.rows[i].error || c.rows[i].tail;
      for (auto &k : c.cols) if (k.kind == K_DT || k.kind == K_DATE || k.kind == K_TIME)
        for (auto &w : c.rows) { (void)w; }
      if (!bad) break;
    }
    const std::string base = dir + "/" + kind + std::to_string(n);
    std::ofstream(base + ".sas7bdat", std::ios::binary).write(reinterpret_cast<const char *>(c.file.data()), long(c.file.size()));
    std::ofstream(base + ".csv.expected", std::ios::binary) << csv_text(c);
    std::ofstream j(base + ".json");
    j << "{\"row_count\":" << c.row_count << ",\"columns\":[";
    static const char *kn[] = {"string", "integer", "integer", "number", "datetime", "date", "time", "unknown"};
    for (size_t k = 0; k < c.cols.size(); ++k) j << (k ? "," : "") << "{\"name\":" << js(c.cols[k].name) << ",\"type\":\"" << kn[c.cols[k].kind] << "\"}";
    j << "],\"rows\":[";
    for (size_t i = 0; i < c.rows.size(); ++i) {
      j << (i ? ",[" : "[");
      for (size_t k = 0; k < c.cols.size(); ++k) {
        const Col &col = c.cols[k];
        j << (k ? "," : "");
        if (col.kind == K_NUM) j << fmt::format("{:.17g}", cell_double(c, col, c.rows[i].data.data()));
        else if (col.kind == K_I8 || col.kind == K_I16) j << cell_int(c, col, c.rows[i].data.data());
        else j << js(cell_text(c, col, c.rows[i].data.data()));
      }
      j << "]";
    }
    j << "]}\n";
  }
}

static void run(const std::string &p, u64 seed) {
  if (p == "C01") codec(seed, RLE);
  else if (p == "C02") codec(seed, RDC);
  else if (p == "C03") c03(seed);
  else if (p == "C04") c04(seed);
  else if (p == "C05") c05(seed);
  else if (p == "C06") c06(seed);
  else if (p == "C07") c07(seed);
  else if (p == "C08") c08(seed);
  else if (p == "C09") c09(seed);
  else if (p == "C10") c10(seed);
  else if (p == "C11") c11(seed);
  else if (p == "C12") c12(seed);
  else if (p == "C13") c13(seed);
  else if (p == "C14") c14(seed);
  else if (p == "C18") c18(seed);
  else { std::fprintf(stderr, "unknown property %s\n", p.c_str()); std::exit(3); }
}
static void on_alarm(int) {
  static const char m[] = "no progress\n";
  if (::write(2, m, sizeof m - 1)) {}
  _exit(77);
}
int main(int argc, char **argv) {
  spdlog::set_level(spdlog::level::off);
  if (argc < 4) return 3;
  g_prop = argv[1];
  if (g_prop == "emit") {
    emit(argv[2], std::stoull(argv[3]), std::stoull(argv[4]), argv[5]);
    return 0;
  }
  signal(SIGALRM, on_alarm);
  u64 first, count;
  if (std::string(argv[2]) == "--case") {
    first = std::stoull(argv[3]);
    count = 1;
    g_outdir = argc > 4 ? argv[4] : "/tmp";
  } else {
    first = std::stoull(argv[2]);
    count = std::stoull(argv[3]);
    g_outdir = argv[4];
  }
  const time_t t0 = time(nullptr);
  const long limit = argc > 5 ? std::stol(argv[5]) : 60;
  for (u64 k = 0; k < count; ++k) {
    g_case = first + k;
    ++g_eval;
    try {
      alarm(60);
      run(g_prop, g_case);
      alarm(0);
    } catch (const Mismatch &m) {
      save("VIOLATION " + m.text);
      std::printf("MISMATCH case %llu: %s; %s\n", (unsigned long long)g_case, g_what.c_str(), m.text.c_str());
      return 1;
    } catch (const std::exception &e) {
      save(std::string("VIOLATION unexpected exception: ") + e.what());
      std::printf("MISMATCH case %llu: %s; unexpected exception %s\n", (unsigned long long)g_case, g_what.c_str(), e.what());
      return 1;
    }
    if (g_samples.size() < 3) g_samples.push_back(fmt::format("case {}: {}", g_case, g_what));
    if (k % 16 == 0 && time(nullptr) - t0 > limit) break;
  }
  std::printf("KNOWN %llu\n", (unsigned long long)g_known);
  std::printf("DONE evaluations=%llu nontrivial=%llu\n", (unsigned long long)g_eval, (unsigned long long)g_nontrivial);
  for (auto &s : g_samples) std::printf("SAMPLE %s\n", s.c_str());
  return 0;
}
