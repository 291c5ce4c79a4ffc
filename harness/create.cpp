// C08 C09 C11: the columns of a file, from what its subheaders told.  src/metadata.hpp
#include "vc.hpp"
#include "units/reader_all.hpp"
#include "faults.hpp"
#include "column.cpp"
using namespace cppsas7bdat;
using namespace cppsas7bdat::INTERNAL;
cppsas7bdat::Reader::FilterConcept::~FilterConcept() {}

template <typename T> struct Raw {
  union { T t; };
  Raw() {}
  ~Raw() {}
};
struct Src {};

// ---------------------------------------------------------------- strings by where they come from
static uint64_t text(uint64_t list, uint64_t i) { return list == 0 ? vc_uf1("name", i) : list == 1 ? vc_uf1("label", i) : vc_uf1("format", i); }
struct Ghost {
  const void *list[3];
  std::string slot[3];
  virtual void kept(const Column &) = 0;
};
static Ghost *ghost;
static void become(std::string *d, uint64_t t) {
  d->_M_dataplus._M_p = d->_M_local_buf;
  d->_M_string_length = t;
}
extern "C" void string_copy(std::string *d, const std::string *s) { become(d, s->_M_string_length); }
// a copy of a list is that list
extern "C" void list_copy(std::vector<std::string> *d, const std::vector<std::string> *s) { std::memcpy((void *)d, s, sizeof *d); }
extern "C" void list_gone(void *) {}
extern "C" const std::string *text_at(const std::vector<std::string> *v, uint64_t i) {
  if (i >= v->size()) std::__throw_out_of_range("at");
  const void *const p = v->data();
  const uint64_t k = p == ghost->list[0] ? 0 : p == ghost->list[1] ? 1 : 2;
  vc_assert(p == ghost->list[k], "a list of the file");
  become(&ghost->slot[k], text(k, i));
  return &ghost->slot[k];
}
extern "C" const void *column_add(const void *, const Column &c) {
  ghost->kept(c);
  return &c;
}
extern "C" bool is_dt(const std::string_view &f) { return vc_uf1("datetime format", f.size()) & 1; }
extern "C" bool is_d(const std::string_view &f) { return vc_uf1("date format", f.size()) & 1; }
extern "C" bool is_t(const std::string_view &f) { return vc_uf1("time format", f.size()) & 1; }

// ---------------------------------------------------------------- what each column has to be
template <typename T> static bool of_kind(const Column &c, T &&f, uint64_t off, uint64_t len) {
  using Model = Column::FormatterModel<T>;
  const Model like(std::move(f));
  if (*reinterpret_cast<void *const *>(&like) != *reinterpret_cast<void *const *>(c.pimpl.get())) return false;
  const Model *const m = static_cast<const Model *>(c.pimpl.get());
  return m->formatter.offset == off && m->formatter.length == len && m->formatter.type == like.formatter.type;
}
template <typename RM, bool filtered> struct Columns_ : public Ghost {
  static constexpr Endian E = RM::endian;
  using Type = Column::Type;
  Raw<RM> raw;
  RM &rm;
  Properties::Metadata md;
  uint64_t names, labels, formats, offsets, lengths, types;
  const uint64_t *off, *len;
  const Type *type;
  uint64_t seen = 0;
  bool due = false;

  Columns_() : rm(raw.t) {}
  template <typename T> uint64_t list_of(std::vector<T> &v, const char *what) {
    const uint64_t n = vc_u64(what);
    vc_assume(n < (1ull << 32));
    T *const p = reinterpret_cast<T *>(vc_bytes(what, n * sizeof(T)));
    v._M_impl._M_start = p;
    v._M_impl._M_finish = v._M_impl._M_end_of_storage = p + n;
    return n;
  }
  bool inside(uint64_t i) const { return (off[i] <= md.row_length) & (len[i] <= md.row_length - off[i]); }
  // column c is column i of the file
  void is(const Column &c, uint64_t i) {
    vc_assert((i < md.column_count) & (i < names) & (i < labels) & (i < formats) & (i < offsets) & (i < lengths) & (i < types), "a column of the file");
    vc_assert(inside(i), "a column lies in its row");
    vc_assert(c.name._M_string_length == text(0, i), "name");
    vc_assert(c.label._M_string_length == text(1, i), "label");
    vc_assert(c.format._M_string_length == text(2, i), "format");
    const uint64_t o = off[i], n = len[i];
    const bool dt = vc_uf1("datetime format", text(2, i)) & 1, d = vc_uf1("date format", text(2, i)) & 1, t = vc_uf1("time format", text(2, i)) & 1;
    Type want;
    bool ok;
    if (type[i] == Type::string) {
      want = Type::string;
      ok = of_kind(c, FORMATTER::StringFormatter(o, n), o, n);
    } else if (type[i] != Type::number || n == 0 || n > 8) {
      want = Type::unknown;
      ok = of_kind(c, FORMATTER::NoFormatter(o, n), o, n);
    } else if (n == 1) {
      want = Type::integer;
      ok = of_kind(c, FORMATTER::SmallIntegerFormatter(o, n), o, n);
    } else if (n == 2) {
      want = Type::integer;
      ok = of_kind(c, FORMATTER::IntegerFormatter<E, int16_t>(o, n), o, n);
    } else if (dt) {
      want = Type::datetime;
      ok = of_kind(c, FORMATTER::DateTimeFormatter<E>(o, n), o, n);
    } else if (d) {
      want = Type::date;
      ok = of_kind(c, FORMATTER::DateFormatter<E>(o, n), o, n);
    } else if (t) {
      want = Type::time;
      ok = of_kind(c, FORMATTER::TimeFormatter<E>(o, n), o, n);
    } else {
      want = Type::number;
      ok = n == 8   ? of_kind(c, FORMATTER::DoubleFormatter<E>(o, n), o, n)
           : n == 3 ? of_kind(c, FORMATTER::IncompleteDoubleFormatter<E, 3>(o, n), o, n)
           : n == 4 ? of_kind(c, FORMATTER::IncompleteDoubleFormatter<E, 4>(o, n), o, n)
           : n == 5 ? of_kind(c, FORMATTER::IncompleteDoubleFormatter<E, 5>(o, n), o, n)
           : n == 6 ? of_kind(c, FORMATTER::IncompleteDoubleFormatter<E, 6>(o, n), o, n)
                    : of_kind(c, FORMATTER::IncompleteDoubleFormatter<E, 7>(o, n), o, n);
    }
    vc_assert(c.type == want, "type of the column");
    vc_assert(ok, "how the cells of the column are read");
  }
  bool accept(const Column &c) {
    vc_assert(!due, "an accepted column is kept before the next");
    is(c, seen);
    due = vc_uf1("accepted", seen) & 1;
    ++seen;
    return due;
  }
  void kept(const Column &c) override {
    if (filtered) {
      vc_assert(due, "only accepted columns are kept, once");
      is(c, seen - 1);
      due = false;
    } else {
      is(c, seen);
      ++seen;
    }
  }
};
template <typename G> struct Pick : public Reader::FilterConcept {
  G *g;
  bool accept(const Column &c) const override { return g->accept(c); }
};
template <Endian E, Format F, bool filtered> static void columns() {
  using G = Columns_<READ_METADATA<Src, E, F>, filtered>;
  G g;
  ghost = &g;
  g.names = g.list_of(g.rm.column_names, "names");
  g.labels = g.list_of(g.rm.column_labels, "labels");
  g.formats = g.list_of(g.rm.column_formats, "formats");
  g.offsets = g.list_of(g.rm.column_data_offsets, "column offsets");
  g.lengths = g.list_of(g.rm.column_data_lengths, "column lengths");
  g.types = g.list_of(g.rm.column_data_types, "column types");
  g.list[0] = g.rm.column_names.data();
  g.list[1] = g.rm.column_labels.data();
  g.list[2] = g.rm.column_formats.data();
  g.off = g.rm.column_data_offsets.data();
  g.len = g.rm.column_data_lengths.data();
  g.type = g.rm.column_data_types.data();
  g.md.column_count = vc_u64("column count");
  g.md.row_length = vc_u64("row length");
  Raw<Reader::PFILTER> filter;
  Pick<G> pick;
  pick.g = &g;
  new (&filter.t) Reader::PFILTER(filtered ? &pick : nullptr);
  bool threw = false;
  try {
    g.rm.create_columns(&g.md, filter.t);
  } catch (...) {
    threw = true;
  }
  const uint64_t i = g.seen;
  vc_assert(!g.due, "every accepted column is kept");
  if (threw) {
    vc_assert(i < g.md.column_count, "only a column is refused");
    if (i < g.names && i < g.labels && i < g.formats && i < g.offsets && i < g.lengths && i < g.types)
      vc_assert(!g.inside(i), "only a column that lacks a part or leaves the row is refused");
    vc_reach("refused");
    return;
  }
  vc_assert(i == g.md.column_count, "every column");
  vc_reach("columns");
}
extern "C" void proof_columns_le64() { columns<Endian::little, Format::bit64, false>(); }
extern "C" void proof_columns_be32() { columns<Endian::big, Format::bit32, false>(); }
extern "C" void proof_columns_filter() { columns<Endian::little, Format::bit64, true>(); }
