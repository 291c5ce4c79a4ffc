// C08 C11 C14: the metadata pages.  src/metadata.hpp, src/page.hpp, src/buffer.hpp
#include "vc.hpp"
#include "units/reader_all.hpp"
#include "faults.hpp"
#include "page.hpp"
using namespace cppsas7bdat;
using namespace cppsas7bdat::INTERNAL;

template <typename T> struct Raw {
  union { T t; };
  Raw() {}
  ~Raw() {}
};
struct Src {}; // the functions as they are

template <Endian E, Format F> struct Page : public spec::Page<E == Endian::little, F == Format::bit64> {
  using P = spec::Page<E == Endian::little, F == Format::bit64>;
  Page(uint8_t *p, uint64_t n) : P{p, n} {}
  uint64_t u16(uint64_t o) const { return spec::word<E == Endian::little, uint16_t>(P::p, o); }
  uint64_t u32(uint64_t o) const { return spec::word<E == Endian::little, uint32_t>(P::p, o); }
  bool has(uint64_t o, uint64_t k) const { return o <= P::n && k <= P::n - o; }
};

// a page in memory and any subheader of it
template <typename RM> struct Setup {
  static constexpr bool wide = RM::format == Format::bit64;
  Raw<RM> raw;
  RM &rm;
  uint64_t n;
  uint8_t *image;
  Properties::Metadata md;
  PAGE_SUBHEADER sh;
  Setup() : rm(raw.t), n(vc_u64("page length")) {
    vc_assume(n < (1ull << 32));
    image = vc_bytes("page", n);
    new (&rm.buf) INTERNAL::BUFFER<RM::endian, RM::format>(n);
    std::memcpy(rm.buf.data(0, 0), image, n);
    sh.offset = vc_u64("subheader offset");
    sh.length = vc_u64("subheader length");
    sh.compression = vc_u8("subheader compression");
    sh.type = vc_u8("subheader type");
    vc_assume(sh.offset <= n && sh.length <= n - sh.offset);
  }
  Page<RM::endian, RM::format> page() { return {image, n}; }
};

// ---------------------------------------------------------------- row and column sizes
template <Endian E, Format F> static void row_size() {
  using RM = READ_METADATA<Src, E, F>;
  Setup<RM> s;
  const auto page = s.page();
  constexpr bool wide = F == Format::bit64;
  constexpr uint64_t I = wide ? 8 : 4, LCS = wide ? 682 : 354, LCP = wide ? 706 : 378;
  bool threw = false;
  try {
    s.rm.process_ROW_SIZE_SUBHEADER(s.sh, &s.md);
  } catch (const fault &f) {
    threw = true;
  }
  const uint64_t o = s.sh.offset;
  if (threw) {
    vc_assert(!page.has(o, LCP + 4), "a subheader that leaves the page is refused, no other");
    vc_reach("refused");
    return;
  }
  vc_assert(page.has(o, LCP + 2), "a subheader that leaves the page is refused");
  vc_assert(s.md.row_length == page.uint(o + 5 * I), "row length");
  vc_assert(s.md.row_count == page.uint(o + 6 * I), "row count");
  vc_assert(s.md.col_count_p1 == page.uint(o + 9 * I), "column count, first part");
  vc_assert(s.md.col_count_p2 == page.uint(o + 10 * I), "column count, second part");
  vc_assert(s.md.mix_page_row_count == page.uint(o + 15 * I), "rows of a mix page");
  vc_assert(s.md.lcs == page.u16(o + LCS), "length of the creator");
  vc_assert(s.md.lcp == page.u16(o + LCP), "length of the creator procedure");
  vc_reach("row size");
}
extern "C" void proof_row_size_le64() { row_size<Endian::little, Format::bit64>(); }
extern "C" void proof_row_size_le32() { row_size<Endian::little, Format::bit32>(); }
extern "C" void proof_row_size_be64() { row_size<Endian::big, Format::bit64>(); }
extern "C" void proof_row_size_be32() { row_size<Endian::big, Format::bit32>(); }

template <Endian E, Format F> static void column_size() {
  using RM = READ_METADATA<Src, E, F>;
  Setup<RM> s;
  const auto page = s.page();
  constexpr uint64_t I = F == Format::bit64 ? 8 : 4;
  s.md.col_count_p1 = vc_u64("p1");
  s.md.col_count_p2 = vc_u64("p2");
  bool threw = false;
  try {
    s.rm.process_COLUMN_SIZE_SUBHEADER(s.sh, &s.md);
  } catch (const fault &f) {
    threw = true;
  }
  vc_assert(threw == !page.has(s.sh.offset + I, I), "a subheader that leaves the page is refused, no other");
  if (threw) return;
  vc_assert(s.md.column_count == page.uint(s.sh.offset + I), "column count");
  vc_reach("column size");
}
extern "C" void proof_column_size_le64() { column_size<Endian::little, Format::bit64>(); }
extern "C" void proof_column_size_be32() { column_size<Endian::big, Format::bit32>(); }

// ---------------------------------------------------------------- which subheader is which
enum Kind { NOTHING, ROW_SIZE, COLUMN_SIZE, COUNTS, TEXT, NAME, ATTRIBUTES, FORMAT_LABEL, LIST, ROW };
static Kind seen;
static unsigned seen_n;
struct Which {};
#define SEEN(K) { seen = K; ++seen_n; }
#define DISPATCH(E, F) \
  template <> void READ_METADATA<Which, E, F>::process_ROW_SIZE_SUBHEADER(const PAGE_SUBHEADER &, Properties::Metadata *) const SEEN(ROW_SIZE) \
  template <> void READ_METADATA<Which, E, F>::process_COLUMN_SIZE_SUBHEADER(const PAGE_SUBHEADER &, Properties::Metadata *) const SEEN(COLUMN_SIZE) \
  template <> void READ_METADATA<Which, E, F>::process_SUBHEADER_COUNTS_SUBHEADER(const PAGE_SUBHEADER &, Properties::Metadata *) const noexcept SEEN(COUNTS) \
  template <> void READ_METADATA<Which, E, F>::process_COLUMN_TEXT_SUBHEADER(const PAGE_SUBHEADER &, Properties::Metadata *) SEEN(TEXT) \
  template <> void READ_METADATA<Which, E, F>::process_COLUMN_NAME_SUBHEADER(const PAGE_SUBHEADER &, Properties::Metadata *) noexcept SEEN(NAME) \
  template <> void READ_METADATA<Which, E, F>::process_COLUMN_ATTRIBUTES_SUBHEADER(const PAGE_SUBHEADER &, Properties::Metadata *) noexcept SEEN(ATTRIBUTES) \
  template <> void READ_METADATA<Which, E, F>::process_FORMAT_AND_LABEL_SUBHEADER(const PAGE_SUBHEADER &, Properties::Metadata *) SEEN(FORMAT_LABEL) \
  template <> void READ_METADATA<Which, E, F>::process_COLUMN_LIST_SUBHEADER(const PAGE_SUBHEADER &, Properties::Metadata *) const noexcept SEEN(LIST)
DISPATCH(Endian::little, Format::bit64)
DISPATCH(Endian::little, Format::bit32)

template <Format F> static void dispatch() {
  using RM = READ_METADATA<Which, Endian::little, F>;
  Setup<RM> s;
  constexpr bool wide = F == Format::bit64;
  constexpr uint64_t I = wide ? 8 : 4;
  s.md.compression = Compression(vc_u8("compression"));
  vc_assume(s.md.compression == Compression::none || s.md.compression == Compression::RLE || s.md.compression == Compression::RDC);
  DataSubHeader *const store = static_cast<DataSubHeader *>(::operator new(32));
  new (&s.rm.data_subheaders) DATASUBHEADERS();
  s.rm.data_subheaders._M_impl._M_start = s.rm.data_subheaders._M_impl._M_finish = store;
  s.rm.data_subheaders._M_impl._M_end_of_storage = store + 2;
  seen = NOTHING;
  seen_n = 0;
  bool threw = false, data = false;
  try {
    data = s.rm.process_subheader(s.sh, &s.md);
  } catch (const fault &f) {
    threw = true;
  }
  const auto page = s.page();
  vc_assert(threw == !page.has(s.sh.offset, I), "a signature outside the page is refused, no other");
  if (threw) return;
  // the signature as a number, most significant byte first
  uint64_t g = 0;
  for (uint64_t i = 0; i < I; ++i) g = g << 8 | s.image[s.sh.offset + i];
  Kind k = NOTHING;
  if (wide) {
    if (g == 0x00000000F7F7F7F7 || g == 0xF7F7F7F700000000) k = ROW_SIZE;
    else if (g == 0x00000000F6F6F6F6 || g == 0xF6F6F6F600000000) k = COLUMN_SIZE;
    else if (g == 0x00FCFFFFFFFFFFFF || g == 0xFFFFFFFFFFFFFC00) k = COUNTS;
    else if (g == 0xFDFFFFFFFFFFFFFF || g == 0xFFFFFFFFFFFFFFFD) k = TEXT;
    else if (g == 0xFFFFFFFFFFFFFFFF) k = NAME;
    else if (g == 0xFCFFFFFFFFFFFFFF || g == 0xFFFFFFFFFFFFFFFC) k = ATTRIBUTES;
    else if (g == 0xFEFBFFFFFFFFFFFF || g == 0xFFFFFFFFFFFFFBFE) k = FORMAT_LABEL;
    else if (g == 0xFEFFFFFFFFFFFFFF || g == 0xFFFFFFFFFFFFFFFE) k = LIST;
  } else {
    if (g == 0xF7F7F7F7) k = ROW_SIZE;
    else if (g == 0xF6F6F6F6) k = COLUMN_SIZE;
    else if (g == 0x00FCFFFF || g == 0xFFFFFC00) k = COUNTS;
    else if (g == 0xFDFFFFFF || g == 0xFFFFFFFD) k = TEXT;
    else if (g == 0xFFFFFFFF) k = NAME;
    else if (g == 0xFCFFFFFF || g == 0xFFFFFFFC) k = ATTRIBUTES;
    else if (g == 0xFEFBFFFF || g == 0xFFFFFBFE) k = FORMAT_LABEL;
    else if (g == 0xFEFFFFFF || g == 0xFFFFFFFE) k = LIST;
  }
  const bool row = k == NOTHING && s.md.compression != Compression::none && (s.sh.compression == 4 || s.sh.compression == 0) && s.sh.type == 1;
  vc_assert(seen == k && seen_n == (k != NOTHING), "the signature tells the kind of subheader");
  vc_assert(data == row, "a compressed row, when the file is compressed");
  vc_assert(s.rm.data_subheaders.size() == (row ? 1u : 0u), "rows found on a metadata page are kept");
  if (row) vc_assert(store->offset == s.sh.offset && store->length == s.sh.length, "where the row lies");
  vc_reach("subheader");
}
extern "C" void proof_dispatch64() { dispatch<Format::bit64>(); }
extern "C" void proof_dispatch32() { dispatch<Format::bit32>(); }

// ---------------------------------------------------------------- every subheader of a metadata page
struct Each {};
struct Subheaders {
  uint8_t *image;
  uint64_t n, i, count;
  uint16_t j;
  bool data, handed;
  PAGE_SUBHEADER last;
};
static Subheaders H;
#define EACH(E, F) \
  template <> bool READ_METADATA<Each, E, F>::process_subheader(const PAGE_SUBHEADER &s, Properties::Metadata *) { \
    vc_assert(!H.handed, "a subheader is processed once"); \
    H.handed = true; \
    H.last = s; \
    const bool data = vc_bool("row"); \
    H.data = H.data || data; \
    return data; \
  }
EACH(Endian::little, Format::bit64)
EACH(Endian::big, Format::bit32)
template <Endian E, Format F> struct EachStep {
  static bool step(void *) {
    if (!(H.i < H.count)) return false;
    const Page<E, F> p(H.image, H.n);
    const auto e = p.entry(H.j);
    if (!e.ok) return false;
    const bool wanted = e.length != 0 && e.compression != 1;
    vc_assert(H.handed == wanted, "every subheader that is not empty or truncated is processed");
    if (wanted) vc_assert(H.last.offset == e.offset && H.last.length == e.length && H.last.compression == e.compression && H.last.type == e.type, "as it stands on the page");
    H.handed = false;
    ++H.i;
    ++H.j;
    return true;
  }
};
template <Endian E, Format F> static void each() {
  using RM = READ_METADATA<Each, E, F>;
  Setup<RM> s;
  new (&s.rm.current_page_header) typename RM::PAGE_HEADER();
  const auto page = s.page();
  vc_assume(s.n >= page.HEAD + 8);
  s.rm._get_page_header();
  H = Subheaders{s.image, s.n, 0, page.subheaders(), 0, false, false, {}};
  vc_bound(H.count);
  vc_lockstep(EachStep<E, F>::step, &H);
  vc_terminates(true);
  bool threw = false, data = false;
  try {
    data = s.rm.process_page_metadata(&s.md);
  } catch (const fault &f) {
    threw = true;
  }
  vc_lockstep_end();
  if (threw) {
    vc_assert(H.i < H.count && !page.entry(H.j).ok, "only a subheader that falls outside the page is refused");
    vc_reach("refused");
  } else {
    vc_assert(H.i == H.count, "every subheader is examined");
    vc_assert(data == H.data, "a page with rows ends the metadata");
    vc_reach("done");
  }
}
extern "C" void proof_each_le64() { each<Endian::little, Format::bit64>(); }
extern "C" void proof_each_be32() { each<Endian::big, Format::bit32>(); }

// ---------------------------------------------------------------- page after page
struct Stream {
  bool eof();
  bool read_bytes(void *p, const size_t length);
};
struct Pages {
  Stream *operator->() const { static Stream s; return &s; }
};
struct Walk {
  uint8_t *image;
  uint64_t n;
  bool open;      // a page was read that is not dealt with yet
  bool data;      // rows were found
  bool eof, failed;
  bool created;
  const Reader::PFILTER *filter;
};
static Walk W;
using RMP = READ_METADATA<Pages, Endian::little, Format::bit64>;
using SP = Page<Endian::little, Format::bit64>;
static bool is_meta(uint64_t t) { return t == 0 || t == 1024 || t == 512 || t == 640; }
static bool is_data(uint64_t t) { return t == 256 || t == 512 || t == 640; }
static void dealt() {
  if (W.open) {
    const SP page(W.image, W.n);
    vc_assert(!is_meta(page.type()), "every metadata page is processed");
    vc_assert(!is_data(page.type()), "the metadata end at the first page of rows");
  }
  vc_assert(!W.data, "the metadata end at the first rows");
}
// stated invariant of the page loop: the latest page is dealt with
static void check_pages(void *) {
  dealt();
  W.open = W.data = false;
}
static void no_havoc(void *) {}
bool Stream::eof() { return W.eof = vc_bool("end of file"); }
bool Stream::read_bytes(void *p, const size_t length) {
  dealt();
  vc_assert(length == W.n && !W.eof && !W.created, "pages are read whole");
  uint8_t *const page = vc_bytes("page", W.n);
  std::memcpy(p, page, W.n);
  std::memcpy(W.image, page, W.n);
  W.open = true;
  W.failed = !vc_bool("page read");
  if (W.failed) W.open = false;
  return !W.failed;
}
template <> bool RMP::process_page_metadata(Properties::Metadata *) {
  const SP page(W.image, W.n);
  vc_assert(W.open && is_meta(page.type()), "a metadata page is processed once");
  vc_assert(current_page_header.type == page.type() && current_page_header.subheaders_count == page.subheaders(), "with its own header");
  if (!is_data(page.type())) W.open = false;
  W.data = vc_bool("rows found");
  return W.data;
}
template <> void RMP::create_columns(Properties::Metadata *, const Reader::PFILTER &f) {
  vc_assert(!W.created, "columns are made once");
  W.created = true;
  W.filter = &f;
}
extern "C" void proof_pages() {
  Raw<RMP> raw;
  RMP &rm = raw.t;
  const uint64_t n = vc_u64("page length");
  vc_assume(n < (1ull << 32));
  W = Walk{vc_bytes("page in memory", n), n, false, false, false, false, false, nullptr};
  Properties::Metadata md;
  Properties::Header hd;
  hd.page_length = n;
  new (&rm.is) Pages();
  rm.header = &hd;
  new (&rm.buf) INTERNAL::BUFFER<Endian::little, Format::bit64>(n);
  new (&rm.current_page_header) RMP::PAGE_HEADER();
  Reader::PFILTER filter;
  bool threw = false;
  Fault why{};
  vc_invariant(check_pages, no_havoc, nullptr);
  try {
    rm.set_metadata(&md, filter);
  } catch (const fault &f) {
    threw = true;
    why = f.f;
  }
  if (threw) {
    vc_assert(why == ::PAGE ? (W.failed && !W.eof) : (why == ACCESS && n < 40), "only a page that cannot be read is refused");
    vc_reach("refused");
    return;
  }
  vc_assert(W.created && W.filter == &filter, "columns are made at the end");
  if (!W.data && !(W.open && is_data(SP(W.image, n).type()))) {
    vc_assert(W.eof, "the metadata end at rows or at the end of the file");
    vc_reach("end of file");
  } else
    vc_reach("rows reached");
}

// ---------------------------------------------------------------- attributes
template <Endian E, Format F> struct Attr {
  static constexpr uint64_t I = F == Format::bit64 ? 8 : 4;
  Page<E, F> page;
  uint64_t at, end;
  uint8_t *offsets, *lengths, *types;
  uint64_t bytes, bytes4;
  static bool step(void *q) {
    Attr &a = *static_cast<Attr *>(q);
    if (!(a.at + 12 + I <= a.end)) return false;
    const uint64_t o = a.page.uint(a.at), l = a.page.u32(a.at + I);
    const Column::Type t = a.page.p[a.at + I + 6] == 1 ? Column::Type::number : Column::Type::string;
    std::memcpy(a.offsets + a.bytes, &o, 8);
    std::memcpy(a.lengths + a.bytes, &l, 8);
    std::memcpy(a.types + a.bytes4, &t, 4);
    a.bytes += 8;
    a.bytes4 += 4;
    a.at += I + 8;
    return true;
  }
};
template <typename T> static T *room(std::vector<T> &v, uint8_t *store, uint64_t n) {
  new (&v) std::vector<T>();
  v._M_impl._M_start = v._M_impl._M_finish = reinterpret_cast<T *>(store);
  v._M_impl._M_end_of_storage = v._M_impl._M_start + n;
  return v._M_impl._M_start;
}
template <Endian E, Format F> static void attributes() {
  using RM = READ_METADATA<Src, E, F>;
  Setup<RM> s;
  constexpr uint64_t I = F == Format::bit64 ? 8 : 4;
  const uint64_t cap = s.n / 8 + 1;
  uint8_t *const offsets = vc_bytes("column offsets", cap * 8), *const lengths = vc_bytes("column lengths", cap * 8), *const types = vc_bytes("column types", cap * 4);
  room(s.rm.column_data_offsets, offsets, cap);
  room(s.rm.column_data_lengths, lengths, cap);
  room(s.rm.column_data_types, types, cap);
  Attr<E, F> g{s.page(), s.sh.offset + I + 8, s.sh.offset + s.sh.length, vc_bytes("specified offsets", cap * 8), vc_bytes("specified lengths", cap * 8),
               vc_bytes("specified types", cap * 4), 0, 0};
  vc_bound(g.end);
  vc_lockstep(Attr<E, F>::step, &g);
  vc_array_pair(offsets, g.offsets, &g.bytes);
  vc_array_pair(lengths, g.lengths, &g.bytes);
  vc_array_pair(types, g.types, &g.bytes4);
  vc_terminates(true);
  s.rm.process_COLUMN_ATTRIBUTES_SUBHEADER(s.sh, &s.md);
  vc_lockstep_end();
  vc_assert(!(g.at + 12 + I <= g.end), "every column of the subheader");
  vc_assert(s.rm.column_data_offsets.size() * 8 == g.bytes && s.rm.column_data_lengths.size() * 8 == g.bytes && s.rm.column_data_types.size() * 4 == g.bytes4, "number of columns");
  vc_assert_mem_eq(offsets, g.offsets, g.bytes, "where each column lies in a row");
  vc_assert_mem_eq(lengths, g.lengths, g.bytes, "length of each column");
  vc_assert_mem_eq(types, g.types, g.bytes4, "type of each column");
  vc_reach("attributes");
}
extern "C" void proof_attributes_le64() { attributes<Endian::little, Format::bit64>(); }
extern "C" void proof_attributes_be32() { attributes<Endian::big, Format::bit32>(); }
