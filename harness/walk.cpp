// C05 C06 C11: the rows of a file, page after page.
// src/data.hpp PAGE::*, READ_DATA::next, _read_line, read_line, skip, extract_row_values, build_page, read_next_page;
// src/page.hpp read_page, _get_page_header; src/buffer.hpp.
#include "vc.hpp"
#include "units/reader_all.hpp"
#include "faults.hpp"
#include "page.hpp"
using namespace cppsas7bdat;
using namespace cppsas7bdat::INTERNAL;

template <typename T> struct Raw {
  union { T t; };
  Raw() {}
  ~Raw() {}
};
enum Shape { NOPAGE, DATA, MIX, META };

// what the file is: the latest page read, and the rows its subheaders list
struct Ghost {
  uint8_t *image;  // n bytes
  uint64_t n;
  bool may_read;   // no row is left on the current page
  bool read;       // a page was read during this call
  bool eof, failed; // latest answers of the source
  uint64_t listed; // rows listed by the latest page
  uint8_t *list;
  uint64_t row_count, mix_rows, row_length;
  bool decompressed;
  BYTES packed;
  uint8_t *unpacked;
  uint64_t unpacked_size;
};
static Ghost G;

template <Endian endian, Format format> struct Spec : public spec::Page<endian == Endian::little, format == Format::bit64> {
  using P = spec::Page<endian == Endian::little, format == Format::bit64>;
  Spec() : P{G.image, G.n} {}
  bool mix() const { return P::type() == 512 || P::type() == 640; }
  uint64_t rows() const {
    if (P::type() == 0) return G.listed;
    if (P::type() == 256) return P::blocks();
    if (mix()) return G.row_count < G.mix_rows ? G.row_count : G.mix_rows;
    return 0;
  }
};

struct Stream {
  bool eof() { return G.eof = vc_bool("end of file"); }
  bool read_bytes(void *p, const size_t length) {
    vc_assert(G.may_read, "no page is read while the current one has rows");
    vc_assert(length == G.n, "pages are read whole");
    vc_assert(!G.eof, "nothing is read past the end");
    uint8_t *const page = vc_bytes("page", G.n);
    std::memcpy(p, page, G.n);
    std::memcpy(G.image, page, G.n);
    G.listed = vc_u64("rows listed");
    vc_assume(G.listed <= 65535);
    G.read = true;
    G.failed = !vc_bool("page read");
    return !G.failed;
  }
};
template <Endian endian, Format format> struct Source {
  Stream *operator->() const { static Stream s; return &s; }
};
struct Dec {
  BYTES operator()(const BYTES &values) const {
    G.decompressed = true;
    G.packed = values;
    return BYTES(G.unpacked, G.unpacked_size);
  }
};
template <Endian endian, Format format> using RD_ = READ_DATA<Source<endian, format>, endian, format, Dec>;

static void fill(DATASUBHEADERS &rows, const uint64_t n, const uint8_t *list) {
  DataSubHeader *const store = static_cast<DataSubHeader *>(::operator new(n * 16));
  std::memcpy(static_cast<void *>(store), list, n * 16);
  rows._M_impl._M_start = store;
  rows._M_impl._M_finish = rows._M_impl._M_end_of_storage = store + n;
}
// by contract: unit pagelist
static void listed_rows(DATASUBHEADERS &rows) {
  if (G.listed == 0) return;
  fill(rows, G.listed, G.list);
}
#define BY_CONTRACT(E, F) \
  template <> void READ_DATA<Source<E, F>, E, F, Dec>::process_page_metadata(DATASUBHEADERS &rows) { listed_rows(rows); }
BY_CONTRACT(Endian::little, Format::bit64)
BY_CONTRACT(Endian::little, Format::bit32)
BY_CONTRACT(Endian::big, Format::bit64)
BY_CONTRACT(Endian::big, Format::bit32)

// any page, with `row` rows already taken from it
template <Shape shape> struct AnyPage {
  uint64_t rows{0}, offset{0}, length{0}, row{0};
  uint8_t *list{nullptr};
  PAGE::base *make() {
    row = vc_u64("row on page");
    PAGE::base *page = nullptr;
    if constexpr (shape == DATA) {
      rows = vc_u16("rows of the data page");
      offset = vc_u64("first row");
      page = new PAGE::data_type(rows, offset, length = G.row_length);
    } else if constexpr (shape == MIX) {
      Properties::Metadata md;
      md.row_count = G.row_count;
      md.mix_page_row_count = G.mix_rows;
      md.row_length = length = G.row_length;
      rows = G.row_count < G.mix_rows ? G.row_count : G.mix_rows;
      offset = vc_u64("first row");
      page = new PAGE::mix_type(&md, offset);
    } else if constexpr (shape == META) {
      rows = vc_u64("rows of the metadata page");
      vc_assume(rows > 0 && rows <= 65535);
      list = vc_bytes("rows of the metadata page", rows * 16);
      DATASUBHEADERS v;
      fill(v, rows, list);
      page = new PAGE::meta_type(std::move(v));
    }
    if constexpr (shape != NOPAGE) {
      vc_assume(row <= rows);
      page->current_row_on_page = row;
    }
    return page;
  }
};
struct Row { uint64_t offset, length; };

// stated invariant of the page loop: there is no page, or all its rows were taken; the pages
// read so far held no row
template <Endian endian, Format format> struct Loop {
  RD_<endian, format> &rd;
  static void check(void *q) {
    Loop &l = *static_cast<Loop *>(q);
    vc_assert(!G.read || Spec<endian, format>().rows() == 0, "a page that holds rows is not passed over");
    PAGE::base *const page = l.rd.page.get();
    vc_assert(!page || page->next(), "only a page without rows left is passed over");
  }
  static void havoc(void *q) {
    Loop &l = *static_cast<Loop *>(q);
    new (&l.rd.page) std::unique_ptr<PAGE::base>();
    if (vc_bool("no page")) return;
    if (vc_bool("data page")) put(l, AnyPage<DATA>());
    else if (vc_bool("mix page")) put(l, AnyPage<MIX>());
    else put(l, AnyPage<META>());
  }
  template <typename A> static void put(Loop &l, A any) {
    PAGE::base *const page = any.make();
    vc_assume(any.row == any.rows);
    new (&l.rd.page) std::unique_ptr<PAGE::base>(page);
  }
};

template <Endian endian, Format format, Shape shape> static void line() {
  using RD = RD_<endian, format>;
  const uint64_t n = vc_u64("page length");
  vc_assume(n < (1ull << 32));
  G.n = n;
  G.image = vc_bytes("page in memory", n);
  G.list = vc_bytes("list", 65535 * 16);
  G.unpacked = vc_bytes("decompressed", 8);
  G.unpacked_size = vc_u64("decompressed size");
  G.read = G.eof = G.failed = G.decompressed = false;
  G.listed = 0;
  Properties::Metadata md;
  G.row_count = md.row_count = vc_u64("row count");
  G.mix_rows = md.mix_page_row_count = vc_u64("rows of the mix page");
  G.row_length = md.row_length = vc_u64("row length");
  Properties::Header hd;
  hd.page_length = n;

  Raw<RD> raw;
  RD &rd = raw.t;
  new (&rd.buf) INTERNAL::BUFFER<endian, format>(n);
  std::memcpy(rd.buf.data(0, 0), G.image, n);
  new (&rd.current_page_header) typename RD::PAGE_HEADER();
  new (&rd.is) Source<endian, format>();
  new (&rd.decompressor) Dec();
  rd.metadata = &md;
  rd.header = &hd;
  const uint64_t done = vc_u64("rows read");
  rd.current_row = done;
  AnyPage<shape> any;
  new (&rd.page) std::unique_ptr<PAGE::base>(any.make());
  G.may_read = done != md.row_count && shape != NOPAGE && any.row == any.rows;

  Loop<endian, format> loop{rd};
  vc_invariant(Loop<endian, format>::check, Loop<endian, format>::havoc, &loop);
  bool threw = false;
  std::optional<BYTES> got;
  Fault why{};
  try {
    got = rd.read_line();
  } catch (const fault &f) {
    threw = true;
    why = f.f;
  }
  vc_invariant_end();
  const Spec<endian, format> page;
  // the row that comes next
  bool some = false, bad_page = false;
  Row row{0, 0};
  if (done == md.row_count || shape == NOPAGE) {
    vc_reach("all rows read");
  } else if (any.row < any.rows) {
    some = true;
    if constexpr (shape == META) {
      std::memcpy(&row, any.list + 16 * any.row, 16);
    } else {
      row = Row{any.offset + any.length * any.row, any.length};
    }
  } else if (G.eof) {
    vc_reach("end of file");
  } else if (G.failed) {
    bad_page = true;
    vc_assert(threw && why == ::PAGE, "a page that cannot be read is reported");
  } else if (G.n < Spec<endian, format>::HEAD + 8) {
    bad_page = true;
    vc_assert(threw && why == ACCESS, "a page too short for its header is reported");
  } else {
    vc_assert(G.read, "a page is read");
    vc_assert(page.rows() != 0, "the page holds rows");
    some = true;
    if (page.type() == 0) std::memcpy(&row, G.list, 16);
    else if (page.type() == 256) row = Row{page.HEAD + 8, md.row_length};
    else row = Row{page.mix_offset(), md.row_length};
  }
  if (some) {
    if (row.offset > n || row.length > n - row.offset) {
      vc_assert(threw && why == ACCESS, "a row outside the page is reported");
      vc_reach("row outside the page");
    } else {
      vc_assert(!threw && got.has_value(), "a row is returned");
      vc_assert_mem_eq(rd.buf.data(0, 0), G.image, n, "the page in memory is the page read");
      const BYTES b = G.decompressed ? G.packed : *got;
      vc_assert(b.size() == row.length && vc_same_ptr(b.data(), rd.buf.data(row.offset, 0)), "the row");
      vc_assert(G.decompressed == (row.length < md.row_length), "short rows are decompressed, no other");
      if (G.decompressed) vc_assert(vc_same_ptr(got->data(), G.unpacked) && got->size() == G.unpacked_size, "decompressed row");
      vc_reach("row read");
    }
    vc_assert(rd.current_row == done + 1, "one row further");
    vc_assert(bool(rd.page) && rd.page->current_row_on_page == (any.row < any.rows ? any.row + 1 : 1), "one row further on the page");
  } else {
    if (!bad_page) vc_assert(!threw && !got.has_value(), "no row is returned");
    vc_assert(rd.current_row == done, "no row is counted");
  }
}
#define LINE(E, F, S, N) extern "C" void proof_line_##S##_##N() { line<Endian::E, Format::F, S>(); }
#define LINES(E, F, N) LINE(E, F, NOPAGE, N) LINE(E, F, DATA, N) LINE(E, F, MIX, N) LINE(E, F, META, N)
LINES(little, bit64, le64)
LINES(big, bit32, be32)
LINE(little, bit32, DATA, le32)
LINE(big, bit64, DATA, be64)

// skip: rows are passed one by one. next() by contract: a row remains, on the page it leaves
struct Skipped {};
using RDS = READ_DATA<Skipped, Endian::little, Format::bit64, Dec>;
static uint64_t available;
template <> bool RDS::next() { return current_row < available; }
extern "C" void proof_skip() {
  Raw<RDS> raw;
  RDS &rd = raw.t;
  Properties::Metadata md;
  rd.metadata = &md;
  const uint64_t done = vc_u64("rows read"), n = vc_u64("rows to skip"), on_page = vc_u64("row on page");
  available = vc_u64("rows of the file");
  vc_assume(done <= available);
  rd.current_row = done;
  new (&rd.page) std::unique_ptr<PAGE::base>(new PAGE::data_type(vc_u64("rows"), vc_u64("offset"), vc_u64("length")));
  rd.page->current_row_on_page = on_page;
  vc_bound(n);
  vc_bound(available - done);
  vc_terminates(true);
  const bool all = rd.skip(n);
  const uint64_t left = available - done, passed = n < left ? n : left;
  vc_assert(all == (n <= left), "skip tells whether there were that many rows");
  vc_assert(rd.current_row == done + passed, "that many rows are passed");
  vc_assert(rd.page->current_row_on_page == on_page + passed, "on the page too");
  if (all) vc_reach("skipped");
  else vc_reach("not that many rows");
}

// the rows that follow the metadata
template <Endian endian, Format format, bool with_rows> static void start() {
  using RD = RD_<endian, format>;
  using RM = READ_METADATA<Source<endian, format>, endian, format>;
  const uint64_t n = vc_u64("page length");
  vc_assume(n < (1ull << 32) && n >= 40);
  G.n = n;
  G.image = vc_bytes("page in memory", n);
  G.list = vc_bytes("list", 65535 * 16);
  G.listed = vc_u64("rows listed");
  vc_assume(G.listed <= 65535);
  G.may_read = G.read = G.eof = G.failed = G.decompressed = false;
  Properties::Metadata md;
  G.row_count = md.row_count = vc_u64("row count");
  G.mix_rows = md.mix_page_row_count = vc_u64("rows of the mix page");
  G.row_length = md.row_length = vc_u64("row length");
  Raw<RM> raw;
  RM &rm = raw.t;
  Properties::Header hd;
  rm.header = &hd;
  new (&rm.is) Source<endian, format>();
  new (&rm.buf) INTERNAL::BUFFER<endian, format>(n);
  std::memcpy(rm.buf.data(0, 0), G.image, n);
  const uint8_t *const memory = rm.buf.data(0, 0);
  new (&rm.current_page_header) typename RM::PAGE_HEADER();
  const Spec<endian, format> page;
  rm._get_page_header();
  new (&rm.data_subheaders) DATASUBHEADERS();
  uint8_t *const list = vc_bytes("rows of the metadata page", 65535 * 16);
  const uint64_t rows_listed = vc_u64("rows of the metadata page");
  if constexpr (with_rows) {
    vc_assume(rows_listed > 0 && rows_listed <= 65535);
    fill(rm.data_subheaders, rows_listed, list);
  }
  RD rd(std::move(rm), Dec(), &md);
  vc_assert(rd.current_row == 0, "no row is counted yet");
  vc_assert(rd.metadata == &md && rd.header == &hd, "metadata");
  vc_assert(rd.buf.size() == n && vc_same_ptr(rd.buf.data(0, 0), memory), "the page in memory goes along");
  const uint64_t rows = with_rows ? rows_listed : page.rows();
  if (rows == 0) {
    vc_assert(!rd.page || rd.page->next(), "no row on this page");
    vc_reach("no row yet");
    return;
  }
  vc_assert(bool(rd.page), "the page holds rows");
  vc_assert(rd.page->current_row_on_page == 0, "from its first row on");
  const uint64_t k = vc_u64("any row");
  vc_assume(k <= rows);
  rd.page->current_row_on_page = k;
  vc_assert(rd.page->next() == (k == rows), "rows of the page");
  if (k == rows) return;
  const auto got = rd.page->read_line();
  Row row{0, 0};
  if (with_rows) std::memcpy(&row, list + 16 * k, 16);
  else if (page.type() == 0) std::memcpy(&row, G.list + 16 * k, 16);
  else if (page.type() == 256) row = Row{page.HEAD + 8 + md.row_length * k, md.row_length};
  else row = Row{page.mix_offset() + md.row_length * k, md.row_length};
  vc_assert(got.first == row.offset && got.second == row.length, "every row of the page, in order");
  vc_reach("rows");
}
extern "C" void proof_start_rows() { start<Endian::little, Format::bit64, true>(); }
extern "C" void proof_start_le64() { start<Endian::little, Format::bit64, false>(); }
extern "C" void proof_start_be32() { start<Endian::big, Format::bit32, false>(); }
