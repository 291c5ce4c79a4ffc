// C01 / C02: decompression of one row, src/decompressors.hpp and src/buffer.hpp
#include "vc.hpp"
#include "rle.hpp"
#include "units/reader_all.hpp"
using namespace cppsas7bdat;
using namespace cppsas7bdat::INTERNAL;

struct decompression_error {};
namespace cppsas7bdat::EXCEPTION {
void cannot_allocate_memory() { throw decompression_error(); }
void not_a_valid_file(const char *) { throw decompression_error(); }
void header_too_short() { throw decompression_error(); }
void invalid_magic_number() { throw decompression_error(); }
void cannot_read_page() { throw decompression_error(); }
void cannot_decompress() { throw decompression_error(); }
void invalid_buffer_access(const size_t, const size_t, const size_t) { throw decompression_error(); }
}

static bool rle_ghost(void *p) { return spec::rle_step(*static_cast<spec::Codec *>(p)) == spec::CONT; }
static bool rdc_ghost(void *p) { return spec::rdc_step(*static_cast<spec::Codec *>(p)) == spec::CONT; }

template <typename D, bool rdc> void row() {
  const uint64_t n_src = vc_u64("n_src"), n_dst = vc_u64("row_length");
  vc_assume(n_src < (1ull << 40));
  vc_assume(n_dst < (1ull << 40));
  const uint8_t *src = vc_bytes("src", n_src);
  Properties::Metadata md;
  md.row_length = n_dst;
  D dec(&md);
  // a decompressor is reused: rows decoded earlier leave any state behind
  dec.i_dst = vc_u64("i_dst of the previous row");
  uint8_t *const out = dec.buf.data(0, 0);
  spec::Codec g{src, n_src, vc_bytes("spec_row", n_dst), n_dst, 0, 0, 0, 0};
  vc_lockstep(rdc ? rdc_ghost : rle_ghost, &g);
  vc_array_pair(out, g.out, &g.d);
  vc_terminates(true);
  bool threw = false;
  BYTES r;
  try {
    r = dec(BYTES(src, n_src));
  } catch (const decompression_error &) {
    threw = true;
  }
  vc_lockstep_end();
  if (threw) {
    // the command at hand is one the specification rejects
    const auto s = rdc ? spec::rdc_step(g) : spec::rle_step(g);
    vc_assert(s == spec::FAIL, "only invalid rows are rejected");
    vc_reach("rejected row");
    return;
  }
  vc_assert(r.size() == n_dst, "the decoded row has the row length");
  vc_assert(vc_same_ptr(r.data(), out), "the decoded row is the whole buffer");
  const uint64_t left = g.n_src - g.i;
  if (rdc && left < 3) {
    // KNOWN FINDING C02-tail: the items encoded in the last two bytes are dropped
  } else {
    const auto s = rdc ? spec::rdc_step(g) : spec::rle_step(g);
    vc_assert(s == spec::DONE, "decoding stops only where the specification does");
  }
  std::memset(g.out + g.d, 0, n_dst - g.d);
  vc_assert_mem_eq(out, g.out, n_dst, "the decoded row is the specified one");
  vc_reach("decoded row");
}
extern "C" void proof_rle_le64() { row<DECOMPRESSOR::RLE<Endian::little, Format::bit64>, false>(); }
extern "C" void proof_rle_be32() { row<DECOMPRESSOR::RLE<Endian::big, Format::bit32>, false>(); }
extern "C" void proof_rdc_le64() { row<DECOMPRESSOR::RDC<Endian::little, Format::bit64>, true>(); }
extern "C" void proof_rdc_be32() { row<DECOMPRESSOR::RDC<Endian::big, Format::bit32>, true>(); }
