// C09: name filters, and columns split by type.  include/cppsas7bdat/filter/column.hpp src/column.cpp
#include "vc.hpp"
#include "units/reader_all.hpp"
#include "faults.hpp"
#include "column.cpp"
using namespace cppsas7bdat;

template <typename T> struct Raw {
  union { T t; };
  Raw() {}
  ~Raw() {}
};

// ---------------------------------------------------------------- filters
// std::set by contract: whether a name is in a set depends on both
using Set = std::set<std::string>;
struct Names {
  const Set *set;
  uint64_t id;
};
static Names sets[2];
static bool member(const Set *s, const std::string &name) {
  const uint64_t id = s == sets[0].set ? sets[0].id : sets[1].id;
  vc_assert(s == sets[0].set || s == sets[1].set, "a set of the filter");
  return vc_uf2("member", id, name._M_string_length) & 1;
}
static std::_Rb_tree_node_base element;
extern "C" const void *set_find(const Set *s, const std::string &name) {
  return member(s, name) ? static_cast<const void *>(&element) : s->end()._M_node;
}
extern "C" uint64_t set_count(const Set *s, const std::string &name) { return member(s, name); }
extern "C" void string_copy(std::string *d, const std::string *s) {
  d->_M_dataplus._M_p = d->_M_local_buf;
  d->_M_string_length = s->_M_string_length;
}
extern "C" void list_gone(void *) {}
static Column column(uint64_t name) {
  std::string text;
  Raw<std::string> n;
  n.t._M_dataplus._M_p = n.t._M_local_buf;
  n.t._M_string_length = name;
  return Column(n.t, text, text, INTERNAL::FORMATTER::NoFormatter(0, 0));
}
static bool some(Set &s, int k, uint64_t name) {
  s._M_t._M_impl._M_node_count = vc_u64("names in the set");
  sets[k] = {&s, uint64_t(k)};
  const bool in = vc_uf2("member", k, name) & 1;
  vc_assume(!in || s._M_t._M_impl._M_node_count > 0);
  return in;
}
extern "C" void proof_include() {
  const uint64_t name = vc_u64("name");
  ColumnFilter::Include f;
  const bool in = some(f.included, 0, name);
  vc_assert(f.accept(column(name)) == in, "the included columns");
  vc_assert(ColumnFilter::AcceptAll().accept(column(name)), "all columns");
  vc_reach("include");
}
extern "C" void proof_exclude() {
  const uint64_t name = vc_u64("name");
  ColumnFilter::Exclude f;
  const bool out = some(f.excluded, 1, name);
  vc_assert(f.accept(column(name)) == !out, "all but the excluded columns");
  vc_reach("exclude");
}
extern "C" void proof_include_exclude() {
  const uint64_t name = vc_u64("name");
  ColumnFilter::IncludeExclude f;
  const bool in = some(f.included, 0, name), out = some(f.excluded, 1, name);
  const bool want = f.included._M_t._M_impl._M_node_count ? in : !out;
  vc_assert(f.accept(column(name)) == want, "the included columns, or without any all but the excluded ones");
  vc_reach("include and exclude");
}

// ---------------------------------------------------------------- split
struct Ghost {
  const uint8_t *base;
  uint64_t at, k = 0;
  Column::Type type;
  bool added;
  static bool step(void *q) {
    Ghost &g = *static_cast<Ghost *>(q);
    const Column::Type t = reinterpret_cast<const Column *>(g.base + g.at)->type;
    vc_assert(g.added == (t == g.type), "a column is taken if and only if it is of the type");
    g.added = false;
    g.at += sizeof(Column);
    ++g.k;
    return true;
  }
};
static Ghost *ghost;
extern "C" const void *column_add(const void *, const Column &c) {
  vc_assert(vc_same_ptr(&c, ghost->base + ghost->at), "columns are taken in order");
  vc_assert(!ghost->added, "a column is taken once");
  ghost->added = true;
  return &c;
}
extern "C" void proof_split_one() {
  Raw<COLUMNS> columns;
  const uint64_t n = vc_u64("columns");
  vc_assume(n < (1ull << 32));
  Ghost g;
  g.base = vc_bytes("columns", n * sizeof(Column));
  g.at = 0;
  g.type = Column::Type(vc_u32("type"));
  g.added = false;
  ghost = &g;
  columns.t._M_impl._M_start = (Column *)g.base;
  columns.t._M_impl._M_finish = columns.t._M_impl._M_end_of_storage = columns.t._M_impl._M_start + n;
  vc_terminates(true);
  vc_bound(n);
  vc_lockstep(Ghost::step, &g);
  Raw<COLUMNS> out;
  new (&out.t) COLUMNS(get_columns(columns.t, g.type));
  vc_lockstep_end();
  vc_assert(g.at == n * sizeof(Column), "every column");
  vc_reach("split");
}
// get_columns by contract
static const COLUMNS *source;
static uint8_t *tokens;
extern "C" void split_by(COLUMNS *r, const COLUMNS &c, Column::Type t) {
  vc_assert(&c == source, "the columns given");
  r->_M_impl._M_start = r->_M_impl._M_finish = r->_M_impl._M_end_of_storage = (Column *)(tokens + uint32_t(t));
}
extern "C" void proof_split() {
  Raw<COLUMNS> all;
  new (&all.t) COLUMNS();
  source = &all.t;
  tokens = vc_bytes("tokens", 64);
  Raw<Columns> c;
  new (&c.t) Columns(all.t);
  const auto is = [](const COLUMNS &x, Column::Type t) { return (const uint8_t *)x.data() == tokens + uint32_t(t); };
  vc_assert(is(c.t.strings, Column::Type::string), "strings");
  vc_assert(is(c.t.numbers, Column::Type::number), "numbers");
  vc_assert(is(c.t.integers, Column::Type::integer), "integers");
  vc_assert(is(c.t.datetimes, Column::Type::datetime), "datetimes");
  vc_assert(is(c.t.dates, Column::Type::date), "dates");
  vc_assert(is(c.t.times, Column::Type::time), "times");
  vc_reach("split");
}
