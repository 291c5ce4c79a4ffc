// C06: the calls of a reader.  src/reader.cpp, src/reader-impl.hpp, include/cppsas7bdat/reader.hpp
#include "vc.hpp"
#include <boost/noncopyable.hpp>
#include "units/reader_all.hpp"
#include "faults.hpp"
#include "reader.cpp"
using namespace cppsas7bdat;
using namespace cppsas7bdat::INTERNAL;

// the rows of a file, as unit walk proves them: row i is at rows + i, one after the other
struct Ghost {
  uint64_t available; // rows of the file
  uint64_t row;       // rows taken
  uint8_t *rows;
  const Properties *header, *metadata;
  // what the sink was given
  uint64_t pushed, first, ends, props;
  bool pushing;
  const Properties *props_at;
};
static Ghost G;
struct File {
  size_t current_row{0};
  void set_pheader(const Properties::Header *p) { G.header = static_cast<const Properties *>(p); }
  void set_pmetadata(const Properties::Metadata *p) { G.metadata = static_cast<const Properties *>(p); }
  std::optional<BYTES> read_line() {
    if (!(current_row < G.available)) return {};
    const BYTES r(G.rows + current_row, 1);
    ++current_row;
    return r;
  }
  bool skip(const size_t n) {
    const uint64_t left = G.available - current_row;
    current_row += n < left ? n : left;
    return n <= left;
  }
};
struct Sink {
  void set_properties(const Properties &p) {
    ++G.props;
    G.props_at = &p;
  }
  void push_row(const size_t i, Column::PBUF p) {
    vc_assert(G.pushing, "rows are given to the sink only when asked for");
    vc_assert(G.ends == 0, "no row after the end of the data");
    vc_assert(i == G.first + G.pushed, "rows are numbered from 0, one after the other");
    vc_assert(vc_same_ptr(p, G.rows + i), "every row with its own number");
    ++G.pushed;
  }
  void end_of_data() { ++G.ends; }
};

static void setup(Reader &r, const bool pushing) {
  G.available = vc_u64("rows of the file");
  vc_assume(G.available < (1ull << 40));
  G.rows = vc_bytes("rows", G.available);
  G.first = vc_u64("rows taken");
  vc_assume(G.first <= G.available);
  G.pushed = G.ends = G.props = 0;
  G.pushing = pushing;
  File f;
  f.current_row = G.first;
  Properties props;
  props.row_count = G.available;
  props.page_length = 4242;
  using RI = ReaderImpl<File>;
  r.m_pimpl = std::make_unique<RI>(std::move(f), Reader::build_sink(Sink()), std::move(props));
  vc_assert(G.props == 1, "the sink is told the properties once");
  vc_assert(G.props_at == &r.properties() && G.header == &r.properties() && G.metadata == &r.properties(), "the properties are the reader's own");
  vc_assert(r.properties().row_count == G.available && r.properties().page_length == 4242, "the properties of the file");
  vc_assert(r.current_row_index() == G.first, "current row");
}
static uint64_t left() { return G.available - G.first; }

extern "C" void proof_read_row() {
  Reader r;
  setup(r, true);
  const bool got = r.read_row();
  vc_assert(got == (left() > 0), "a row is read when one is left");
  vc_assert(G.pushed == got && G.ends == !got, "it goes to the sink, or the end does");
  vc_assert(r.current_row_index() == G.first + got, "current row");
  if (got) vc_reach("row");
  else vc_reach("end");
}
extern "C" void proof_read_row_no_sink() {
  Reader r;
  setup(r, false);
  const Column::PBUF p = r.read_row_no_sink();
  if (left() > 0) {
    vc_assert(vc_same_ptr(p, G.rows + G.first), "the next row");
    vc_reach("row");
  } else {
    vc_assert(p == nullptr, "no row");
    vc_reach("end");
  }
  vc_assert(G.ends == 0, "the sink is told nothing");
  vc_assert(r.current_row_index() == G.first + (left() > 0), "current row");
}
extern "C" void proof_skip_rows() {
  Reader r;
  setup(r, false);
  const uint64_t n = vc_u64("rows to skip");
  const bool all = r.skip(n);
  vc_assert(all == (n <= left()), "skip tells whether there were that many rows");
  vc_assert(G.ends == !all, "the end is told when it is met");
  vc_assert(r.current_row_index() == G.first + (n < left() ? n : left()), "current row");
  if (all) vc_reach("skipped");
  else vc_reach("end");
}
extern "C" void proof_read_rows() {
  Reader r;
  setup(r, true);
  const uint64_t n = vc_u64("rows to read");
  vc_bound(n);
  vc_bound(left());
  vc_terminates(true);
  const bool all = r.read_rows(n);
  vc_assert(all == (n <= left()), "read_rows tells whether there were that many rows");
  vc_assert(G.pushed == (n < left() ? n : left()), "that many rows are given to the sink");
  vc_assert(G.ends == !all, "the end is told when it is met");
  vc_assert(r.current_row_index() == G.first + G.pushed, "current row");
  if (all) vc_reach("read");
  else vc_reach("end");
}
extern "C" void proof_read_all() {
  Reader r;
  setup(r, true);
  vc_bound(left());
  vc_terminates(true);
  r.read_all();
  vc_assert(G.pushed == left(), "all rows are given to the sink");
  vc_assert(G.ends == 1, "and the end, once");
  vc_assert(r.current_row_index() == G.available, "current row");
}
extern "C" void proof_end_of_data() {
  Reader r;
  setup(r, false);
  r.end_of_data();
  vc_assert(G.ends == 1 && r.current_row_index() == G.first, "the end is passed on");
}
// a reader without a file
extern "C" void proof_empty_reader() {
  Reader r;
  if (vc_bool("moved from")) {
    Reader q;
    setup(q, true);
    Reader s(std::move(q));
    r = std::move(s);
    vc_assert(r.current_row_index() == G.first && r.read_row() == (left() > 0), "a moved reader goes on");
    vc_reach("moved");
    vc_assert(!q.read_row() && q.current_row_index() == 0, "the reader it was moved from is empty");
    return;
  }
  const uint64_t n = vc_u64("rows");
  vc_assert(!r.read_row() && !r.read_rows(n) && !r.skip(n) && r.read_row_no_sink() == nullptr && r.current_row_index() == 0, "no rows");
  r.read_all();
  r.end_of_data();
  vc_assert(r.properties().row_count == 0 && r.properties().columns.empty(), "no properties");
  vc_reach("empty");
}
