// C08 C09 C11: texts, names, formats and columns of a file.  src/metadata.hpp
#include "vc.hpp"
#include "units/reader_all.hpp"
#include "faults.hpp"
#include "page.hpp"
using namespace cppsas7bdat;
using namespace cppsas7bdat::INTERNAL;

template <typename T> struct Raw {
  union { T t; };
  Raw() {}
  ~Raw() {}
};
struct Src {};
template <typename T> static T *room(std::vector<T> &v, void *store, uint64_t size, uint64_t cap) {
  new (&v) std::vector<T>();
  v._M_impl._M_start = static_cast<T *>(store);
  v._M_impl._M_finish = v._M_impl._M_start + size;
  v._M_impl._M_end_of_storage = v._M_impl._M_start + cap;
  return v._M_impl._M_start;
}
static bool white(uint8_t c) { return c == ' ' || (c >= 9 && c <= 13); }
static bool control(uint8_t c) { return c < 32 || c == 127; }

template <Endian E, Format F> struct Page : public spec::Page<E == Endian::little, F == Format::bit64> {
  using P = spec::Page<E == Endian::little, F == Format::bit64>;
  Page(uint8_t *p, uint64_t n) : P{p, n} {}
  uint64_t u16(uint64_t o) const { return spec::word<E == Endian::little, uint16_t>(P::p, o); }
  bool has(uint64_t o, uint64_t k) const { return o <= P::n && k <= P::n - o; }
};
template <typename RM> struct Setup {
  Raw<RM> raw;
  RM &rm;
  uint64_t n;
  uint8_t *image;
  Properties::Metadata md;
  PAGE_SUBHEADER sh;
  Setup() : rm(raw.t), n(vc_u64("page length")) {
    vc_assume(n < (1ull << 32));
    new (&rm.buf) INTERNAL::BUFFER<RM::endian, RM::format>(n);
    image = rm.buf.data(0, 0);
    std::memcpy(image, vc_bytes("page", n), n);
    sh.offset = vc_u64("subheader offset");
    sh.length = vc_u64("subheader length");
    vc_assume(sh.offset <= n && sh.length <= n - sh.offset);
  }
  Page<RM::endian, RM::format> page() { return {image, n}; }
};

// ---------------------------------------------------------------- column texts
template <Endian E, Format F, bool first> static void text() {
  using RM = READ_METADATA<Src, E, F>;
  Setup<RM> s;
  const auto page = s.page();
  constexpr uint64_t I = F == Format::bit64 ? 8 : 4, C = F == Format::bit64 ? 20 : 16;
  std::string *const store = static_cast<std::string *>(::operator new(2 * sizeof(std::string)));
  if (!first) new (store) std::string();
  room(s.rm.column_texts, store, first ? 0 : 1, 2);
  s.md.compression = Compression(vc_u8("compression"));
  const Compression was = s.md.compression;
  const uint64_t lcs = s.md.lcs = vc_u16("lcs"), lcp = s.md.lcp = vc_u16("lcp");
  bool threw = false;
  try {
    s.rm.process_COLUMN_TEXT_SUBHEADER(s.sh, &s.md);
  } catch (const fault &f) {
    threw = true;
  }
  const uint64_t o = s.sh.offset;
  const bool sized = page.has(o + I, 2);
  const uint64_t len = sized ? page.u16(o + I) : 0;
  if (threw) {
    const bool in = sized && page.has(o + I, len);
    if (in) {
      vc_assert(first, "only the first text names the compression and the creator");
      const bool in8 = page.has(o + C, 8);
      vc_assert(!in8 || !page.has(o + C + 16, lcp) || !page.has(o + C + 24, lcp) || !page.has(o + C, lcs), "only what leaves the page is refused");
    }
    vc_reach("refused");
    return;
  }
  vc_assert(sized && page.has(o + I, len), "a text that leaves the page is refused");
  vc_assert(s.rm.column_texts.size() == (first ? 1u : 2u), "one more text");
  const std::string &t = store[first ? 0 : 1];
  vc_assert(t.size() == len, "length of the text");
  vc_assert_mem_eq(t.data(), s.image + o + I, len, "the text");
  if (!first) {
    vc_assert(s.md.compression == was && s.md.lcs == lcs && s.md.lcp == lcp, "only the first text names the compression and the creator");
    vc_assert(s.md.creator.empty() && s.md.creator_proc.empty(), "only the first text names the compression and the creator");
    vc_reach("other text");
    return;
  }
  const std::string_view all(reinterpret_cast<const char *>(s.image + o + I), len);
  const Compression c = all.find("SASYZCRL") != all.npos ? Compression::RLE : all.find("SASYZCR2") != all.npos ? Compression::RDC : was;
  vc_assert(s.md.compression == c, "compression");
  const std::string_view z = INTERNAL::get_string_trim(s.image + o + C, 8);
  std::string_view creator, proc;
  if (z.size() == 0) proc = INTERNAL::get_string_trim(s.image + o + C + 16, lcp);
  else if (z == "SASYZCRL") proc = INTERNAL::get_string_trim(s.image + o + C + 24, lcp);
  else if (lcs > 0) creator = INTERNAL::get_string_trim(s.image + o + C, lcs);
  vc_assert(s.md.creator_proc.size() == proc.size() && s.md.creator.size() == creator.size(), "creator");
  vc_assert_mem_eq(s.md.creator_proc.data(), proc.data(), proc.size(), "creator procedure");
  vc_assert_mem_eq(s.md.creator.data(), creator.data(), creator.size(), "creator");
  vc_reach("first text");
}
extern "C" void proof_text_first_le64() { text<Endian::little, Format::bit64, true>(); }
extern "C" void proof_text_first_be32() { text<Endian::big, Format::bit32, true>(); }
extern "C" void proof_text_other_le64() { text<Endian::little, Format::bit64, false>(); }

// ---------------------------------------------------------------- part of a column text
// the texts of the file: any number of them, `the_text` being the one asked for
static std::string *the_text;
static uint64_t asked, texts;
struct Texts {};
using RT = READ_METADATA<Texts, Endian::little, Format::bit64>;
// instead of vector<string>::operator[] const
extern "C" const std::string *text_at(const std::vector<std::string> *, uint64_t i) {
  vc_assert(i < texts, "a text of the file");
  asked = i;
  return the_text;
}
// instead of string::substr: its contract
static uint64_t sub_pos, sub_size;
static const char *sub_data;
extern "C" std::string text_sub(const std::string *t, uint64_t pos, uint64_t n) {
  vc_assert(pos <= t->size(), "substr inside the text");
  sub_pos = pos;
  sub_size = n < t->size() - pos ? n : t->size() - pos;
  std::string s(t->data() + pos, sub_size);
  sub_data = s.data();
  return s;
}
// 0: the part lies inside its text, 1: it ends behind the text, 2: it starts at its end or behind it
template <int how> static void part() {
  constexpr bool whole = how == 0;
  Raw<RT> raw;
  RT &rm = raw.t;
  texts = vc_u64("texts");
  vc_assume(texts < (1ull << 40));
  room(rm.column_texts, vc_bytes("texts", texts * sizeof(std::string)), texts, texts);
  // bytes before the part, in it and behind it
  const uint64_t from = vc_u64("before"), m = vc_u64("bytes"), rest = whole ? vc_u64("behind") : 0, more = whole ? 0 : vc_u64("beyond");
  vc_assume(from < 65536 && m < 65536 && (how == 0 || (m == 0) == (how == 2)) && (how != 1 || more > 0) && rest < 65536 && more < 65536);
  const uint64_t len = from + m + rest;
  const uint8_t *const p = vc_bytes("text", len);
  std::string text(reinterpret_cast<const char *>(p), len);
  the_text = &text;
  const uint64_t idx = vc_u64("text index");
  vc_assume(idx < 65536);
  // a part that starts or ends behind the text is cut to the text
  const uint64_t off = how == 2 ? from + vc_u64("start beyond") % 65536 : from, n = m + more;
  const uint64_t k = vc_u64("any index before"), j = vc_u64("any index after");
  vc_inst(from + k);
  vc_inst(j);
  vc_terminates(true);
  const std::string s = rm.get_column_text_substr(idx, off, n);
  if (how == 2 || idx >= texts || m == 0 || control(p[from])) {
    vc_assert(s.size() == 0, "no text");
    vc_reach("no text");
    return;
  }
  vc_assert(asked == idx, "the text asked for");
  vc_assert(s.size() == sub_size && s.data() == sub_data, "what is kept is a part of the text");
  vc_assert(sub_pos >= from && sub_pos - from <= m && s.size() <= m - (sub_pos - from), "what is kept is inside the part");
  const uint64_t first = sub_pos - from;
  if (s.size()) {
    vc_assert(!white(p[sub_pos]), "the first byte kept is not white space");
    const uint8_t c = p[sub_pos + s.size() - 1];
    vc_assert(!white(c) && !control(c), "the last byte kept is no white space and no control byte");
  }
  if (k < first) vc_assert(white(p[from + k]), "only leading white space is dropped");
  if (j >= s.size() && j < m - first) vc_assert(white(p[sub_pos + j]) || control(p[sub_pos + j]), "only trailing blanks are dropped");
  vc_reach("text");
}
extern "C" void proof_text_part() { part<0>(); }
extern "C" void proof_text_part_cut() { part<1>(); }
extern "C" void proof_text_part_gone() { part<2>(); }
