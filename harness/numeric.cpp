// C03: numeric cells.  The formatters of src/formatters.hpp on an arbitrary row.
#include "vc.hpp"
#include "units/types_only.hpp"
using namespace cppsas7bdat;
using namespace cppsas7bdat::INTERNAL;
using namespace cppsas7bdat::INTERNAL::FORMATTER;

static uint64_t bits(double d) { uint64_t x; __builtin_memcpy(&x, &d, 8); return x; }

// most significant byte first / last
static uint64_t spec_be(const uint8_t *p, unsigned n) {
  uint64_t x = 0;
  for (unsigned i = 0; i < n; ++i) x = (x << 8) | p[i];
  return x << (8 * (8 - n));
}
static uint64_t spec_le(const uint8_t *p, unsigned n) {
  uint64_t x = 0;
  for (unsigned i = 0; i < n; ++i) x |= uint64_t(p[i]) << (8 * (8 - n + i));
  return x;
}

struct Row {
  uint64_t len, off;
  const uint8_t *p;
  explicit Row(uint64_t need) {
    len = vc_u64("row_length");
    off = vc_u64("offset");
    vc_assume(need <= len);
    vc_assume(off <= len - need);
    vc_assume(len < (1ull << 48));
    p = vc_bytes("row", len);
  }
};

extern "C" void proof_small_integer() {
  Row r(1);
  SmallIntegerFormatter f(r.off, 1);
  vc_assert(f.type == Column::Type::integer, "one byte cells are integers");
  vc_assert(uint32_t(f.get_integer(r.p)) == r.p[r.off], "value of a one byte cell");
  vc_assert(bits(f.get_number(r.p)) == bits(vc_f64_of_i32(r.p[r.off])), "number of a one byte cell");
  vc_reach("small integer");
}

template <Endian E> void int16() {
  Row r(2);
  IntegerFormatter<E, int16_t> f(r.off, 2);
  vc_assert(f.type == Column::Type::integer, "two byte cells are integers");
  const uint8_t *q = r.p + r.off;
  const uint32_t raw = E == Endian::big ? (q[0] << 8 | q[1]) : (q[1] << 8 | q[0]);
  const uint32_t v = (raw & 0x8000) ? raw | 0xffff0000u : raw;
  vc_assert(uint32_t(f.get_integer(r.p)) == v, "value of a two byte cell");
  vc_assert(bits(f.get_number(r.p)) == bits(vc_f64_of_i32(v)), "number of a two byte cell");
  vc_reach("int16");
}
extern "C" void proof_int16_le() { int16<Endian::little>(); }
extern "C" void proof_int16_be() { int16<Endian::big>(); }

template <Endian E, int n> void incomplete() {
  Row r(n);
  IncompleteDoubleFormatter<E, n> f(r.off, n);
  vc_assert(f.type == Column::Type::number, "short cells are numbers");
  const uint8_t *q = r.p + r.off;
  const uint64_t want = E == Endian::big ? spec_be(q, n) : spec_le(q, n);
  vc_assert(bits(f.get_number(r.p)) == want, "bits of a truncated double");
  // dates and times stored on fewer than eight bytes use the same decoding
  DoubleFormatter<E> g(r.off, n);
  vc_assert(bits(g.get_number(r.p)) == want, "bits of a truncated date");
  vc_reach("incomplete");
}
template <Endian E> void dbl() {
  Row r(8);
  DoubleFormatter<E> f(r.off, 8);
  vc_assert(f.type == Column::Type::number, "eight byte cells are numbers");
  const uint8_t *q = r.p + r.off;
  vc_assert(bits(f.get_number(r.p)) == (E == Endian::big ? spec_be(q, 8) : spec_le(q, 8)), "bits of a double");
  vc_reach("double");
  incomplete<E, 3>();
  incomplete<E, 4>();
  incomplete<E, 5>();
  incomplete<E, 6>();
  incomplete<E, 7>();
}
extern "C" void proof_double_le() { dbl<Endian::little>(); }
extern "C" void proof_double_be() { dbl<Endian::big>(); }
