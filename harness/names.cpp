// C08 C11: which text names a column, which is its format and its label.  src/metadata.hpp
#include "vc.hpp"
#include "units/reader_all.hpp"
#include "faults.hpp"
#include "page.hpp"
using namespace cppsas7bdat;
using namespace cppsas7bdat::INTERNAL;

template <typename T> struct Raw {
  union { T t; };
  Raw() {}
  ~Raw() {}
};
struct Src {};
template <Endian E, Format F> struct Page : public spec::Page<E == Endian::little, F == Format::bit64> {
  using P = spec::Page<E == Endian::little, F == Format::bit64>;
  Page(uint8_t *p, uint64_t n) : P{p, n} {}
  uint64_t u16(uint64_t o) const { return spec::word<E == Endian::little, uint16_t>(P::p, o); }
  bool has(uint64_t o, uint64_t k) const { return o <= P::n && k <= P::n - o; }
};
template <typename RM> struct Setup {
  Raw<RM> raw;
  RM &rm;
  uint64_t n;
  uint8_t *image;
  Properties::Metadata md;
  PAGE_SUBHEADER sh;
  Setup() : rm(raw.t), n(vc_u64("page length")) {
    vc_assume(n < (1ull << 32));
    new (&rm.buf) INTERNAL::BUFFER<RM::endian, RM::format>(n);
    image = rm.buf.data(0, 0);
    std::memcpy(image, vc_bytes("page", n), n);
    sh.offset = vc_u64("subheader offset");
    sh.length = vc_u64("subheader length");
    vc_assume(sh.offset <= n && sh.length <= n - sh.offset);
  }
  Page<RM::endian, RM::format> page() { return {image, n}; }
};

// get_column_text_substr by contract (unit columns): a text given by its three numbers
static uint64_t text(uint64_t idx, uint64_t off, uint64_t n) { return vc_uf3("text", idx, off, n); }
extern "C" std::string text_of(const void *, size_t idx, size_t off, size_t n) {
  std::string s;
  s._M_string_length = text(idx, off, n);
  return s;
}
struct Ghost {
  virtual void add(const void *list, const std::string &s) = 0;
};
static Ghost *ghost;
extern "C" const void *text_add(const void *list, const std::string &s) {
  ghost->add(list, s);
  return &s;
}

// ---------------------------------------------------------------- names
template <typename RM> struct Names : public Ghost {
  static constexpr uint64_t I = RM::format == Format::bit64 ? 8 : 4;
  Setup<RM> s;
  uint64_t at, end;
  void add(const void *list, const std::string &x) override {
    vc_assert(list == &s.rm.column_names, "a name is a name");
    vc_assert(at + 12 + I <= end, "an entry of the subheader");
    const auto page = s.page();
    vc_assert(x._M_string_length == text(page.u16(at), page.u16(at + 2), page.u16(at + 4)), "the text that names the column");
    at += 8;
  }
};
template <Endian E, Format F> static void names() {
  Names<READ_METADATA<Src, E, F>> g;
  g.at = g.s.sh.offset + g.I + 8;
  g.end = g.s.sh.offset + g.s.sh.length;
  ghost = &g;
  vc_bound(g.end + 16);
  vc_terminates(true);
  g.s.rm.process_COLUMN_NAME_SUBHEADER(g.s.sh, &g.s.md);
  vc_assert(!(g.at + 12 + g.I <= g.end), "every name of the subheader");
  vc_reach("names");
}
extern "C" void proof_names_le64() { names<Endian::little, Format::bit64>(); }
extern "C" void proof_names_be32() { names<Endian::big, Format::bit32>(); }

// ---------------------------------------------------------------- format and label
template <typename RM> struct Formats : public Ghost {
  Setup<RM> s;
  uint64_t formats = 0, labels = 0;
  void add(const void *list, const std::string &x) override {
    const auto page = s.page();
    const uint64_t o = s.sh.offset + 3 * (RM::format == Format::bit64 ? 8 : 4);
    if (list == &s.rm.column_formats) {
      vc_assert(x._M_string_length == text(page.u16(o + 22), page.u16(o + 24), page.u16(o + 26)), "the text that is the format");
      ++formats;
    } else {
      vc_assert(list == &s.rm.column_labels, "a label is a label");
      vc_assert(x._M_string_length == text(page.u16(o + 28), page.u16(o + 30), page.u16(o + 32)), "the text that is the label");
      ++labels;
    }
  }
};
template <Endian E, Format F> static void format_label() {
  Formats<READ_METADATA<Src, E, F>> g;
  ghost = &g;
  const bool in = g.s.page().has(g.s.sh.offset + 3 * (F == Format::bit64 ? 8 : 4) + 32, 2);
  bool threw = false;
  try {
    g.s.rm.process_FORMAT_AND_LABEL_SUBHEADER(g.s.sh, &g.s.md);
  } catch (const fault &f) {
    threw = true;
  }
  vc_assert(threw == !in, "refused if and only if it leaves the page");
  if (threw) {
    vc_assert(g.formats == 0 && g.labels == 0, "nothing is added");
    vc_reach("refused");
    return;
  }
  vc_assert(g.formats == 1 && g.labels == 1, "one format and one label");
  vc_reach("format and label");
}
extern "C" void proof_format_label_le64() { format_label<Endian::little, Format::bit64>(); }
extern "C" void proof_format_label_be32() { format_label<Endian::big, Format::bit32>(); }
