// C05 C11: the rows listed in the subheaders of a page.
// src/page.hpp _get_page_header, _get_page_subheader, process_page_subheaders;
// src/data.hpp process_page_metadata, process_DATA_SUBHEADER; src/subheaders.hpp.
#include "vc.hpp"
#include "units/reader_all.hpp"
#include "faults.hpp"
#include "page.hpp"
using namespace cppsas7bdat;
using namespace cppsas7bdat::INTERNAL;

struct NoSource {};
template <typename T> struct Raw {
  union { T t; };
  Raw() {}
  ~Raw() {}
};

template <bool little, bool wide> struct Ghost {
  spec::Page<little, wide> page;
  bool compressed;
  uint64_t i, count;
  uint16_t j; // i again
  uint8_t *out;
  uint64_t bytes, room; // of the rows so far; 16 * i
  static bool step(void *q) {
    Ghost &g = *static_cast<Ghost *>(q);
    if (!(g.i < g.count)) return false;
    const auto e = g.page.entry(g.j);
    if (!e.ok) return false;
    if (g.page.holds_row(e, g.compressed)) {
      std::memcpy(g.out + g.bytes, &e.offset, 8);
      std::memcpy(g.out + g.bytes + 8, &e.length, 8);
      g.bytes += 16;
    }
    ++g.i;
    ++g.j;
    g.room += 16;
    return true;
  }
};

template <Endian endian, Format format> static void list() {
  constexpr bool little = endian == Endian::little, wide = format == Format::bit64;
  using RD = READ_DATA<NoSource, endian, format, DECOMPRESSOR::None>;
  const uint64_t n = vc_u64("page length");
  vc_assume(n < (1ull << 32));
  Raw<RD> raw;
  RD &rd = raw.t;
  new (&rd.buf) INTERNAL::BUFFER<endian, format>(n);
  new (&rd.current_page_header) typename RD::PAGE_HEADER();
  uint8_t *const page = vc_bytes("page", n);
  std::memcpy(rd.buf.data(0, 0), page, n);
  Properties::Metadata md;
  md.compression = Compression(vc_u8("compression"));
  vc_assume(md.compression == Compression::none || md.compression == Compression::RLE || md.compression == Compression::RDC);
  rd.metadata = &md;
  const spec::Page<little, wide> p{page, n};
  bool threw = false;
  try {
    rd._get_page_header();
  } catch (const fault &f) {
    threw = true;
  }
  vc_assert(threw == (n < p.HEAD + 8), "a page too short for its header is refused, no other");
  if (threw) {
    vc_reach("page too short");
    return;
  }
  vc_assert(rd.current_page_header.type == p.type(), "page type");
  vc_assert(rd.current_page_header.block_count == p.blocks(), "block count");
  vc_assert(rd.current_page_header.subheaders_count == p.subheaders(), "subheader count");

  DATASUBHEADERS rows;
  // a vector with room for every subheader a page can list
  DataSubHeader *const store = reinterpret_cast<DataSubHeader *>(vc_bytes("rows", 65536 * 16));
  rows._M_impl._M_start = rows._M_impl._M_finish = store;
  rows._M_impl._M_end_of_storage = store + 65536;
  Ghost<little, wide> g{p, md.compression != Compression::none, 0, p.subheaders(), 0, vc_bytes("specified rows", 65536 * 16), 0, 0};
  vc_bound(g.count);
  vc_lockstep(Ghost<little, wide>::step, &g);
  vc_array_pair(store, g.out, &g.bytes);
  vc_terminates(true);
  try {
    rd.process_page_metadata(rows);
  } catch (const fault &f) {
    threw = true;
  }
  vc_lockstep_end();
  if (threw) {
    vc_assert(g.i < g.count && !p.entry(g.j).ok, "only a subheader that falls outside the page is refused");
    vc_reach("subheader refused");
  } else {
    vc_assert(g.i == g.count, "every subheader is examined");
    vc_assert(reinterpret_cast<uint8_t *>(rows._M_impl._M_finish) - reinterpret_cast<uint8_t *>(rows._M_impl._M_start) == g.bytes, "number of rows");
    vc_assert(vc_same_ptr(rows.data(), store), "rows");
    vc_assert_mem_eq(store, g.out, g.bytes, "the rows listed, in order");
    vc_reach("rows listed");
  }
  rows._M_impl._M_start = rows._M_impl._M_finish = rows._M_impl._M_end_of_storage = nullptr;
}
extern "C" void proof_list_le64() { list<Endian::little, Format::bit64>(); }
extern "C" void proof_list_be32() { list<Endian::big, Format::bit32>(); }
extern "C" void proof_list_le32() { list<Endian::little, Format::bit32>(); }
extern "C" void proof_list_be64() { list<Endian::big, Format::bit64>(); }
