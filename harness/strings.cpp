// C04: trimming of cells and of header and metadata text.
#include "vc.hpp"
#include "units/types_only.hpp"
using namespace cppsas7bdat;
using namespace cppsas7bdat::INTERNAL;
using namespace cppsas7bdat::INTERNAL::FORMATTER;

static bool white(uint8_t c) { return c == ' ' || (c >= 9 && c <= 13); }
static bool blank(uint8_t c) { return c == 0 || white(c); }
static bool control(uint8_t c) { return c < 32 || c == 127; }

// a character cell: only the maximal trailing run of blanks is dropped
extern "C" void proof_cell_text() {
  const uint64_t len = vc_u64("row_length"), off = vc_u64("offset"), n = vc_u64("length");
  vc_assume(len < (1ull << 48));
  vc_assume(off <= len);
  vc_assume(n <= len - off);
  const uint8_t *row = vc_bytes("row", len);
  const uint64_t k = vc_u64("any index");
  vc_inst(k);
  vc_terminates(true);
  StringFormatter f(off, n);
  vc_assert(f.type == Column::Type::string, "character cells are strings");
  const SV s = f.get_string(row);
  vc_assert(s.size() <= n, "nothing is added to a character cell");
  vc_assert(vc_same_ptr(s.data(), row + off), "a character cell starts at its column");
  if (s.size()) vc_assert(!blank(row[off + s.size() - 1]), "the last byte kept is not a blank");
  if (k >= s.size() && k < n) vc_assert(blank(row[off + k]), "only blanks are dropped");
  vc_reach("cell");
}

// header and metadata text: leading white space and trailing white space, NUL and
// control bytes are dropped, all of them and nothing else
extern "C" void proof_header_text() {
  const uint64_t n = vc_u64("length");
  vc_assume(n < (1ull << 48));
  const uint8_t *p = vc_bytes("text", n);
  const uint64_t k = vc_u64("any leading index"), j = vc_u64("any trailing index");
  vc_inst(k);
  vc_inst(j);
  vc_terminates(true);
  const std::string_view s = INTERNAL::get_string_trim(p, n);
  vc_assert(s.size() <= n, "nothing is added to a text");
  const uint64_t first = reinterpret_cast<const uint8_t *>(s.data()) - p;
  vc_assert(first <= n && s.size() <= n - first, "a text lies inside its field");
  if (s.size()) {
    vc_assert(!white(p[first]), "the first byte kept is not white space");
    const uint8_t c = p[first + s.size() - 1];
    vc_assert(!white(c) && !control(c), "the last byte kept is no white space and no control byte");
  }
  if (k < first) vc_assert(white(p[k]), "only leading white space is dropped");
  if (j >= s.size() && j < n - first) vc_assert(white(p[first + j]) || control(p[first + j]), "only trailing blanks are dropped");
  vc_reach("text");
}
