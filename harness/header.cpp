// C07 (and C11, C14): the file header.  src/header.hpp, src/buffer.hpp, src/memory.hpp.
#include "vc.hpp"
#include <bit>
#include "units/reader_all.hpp"
using namespace cppsas7bdat;
using namespace cppsas7bdat::INTERNAL;

enum Fault { NONE, SHORT, MAGIC };
struct fault { Fault f; };
namespace cppsas7bdat::EXCEPTION {
void cannot_allocate_memory() { throw fault{NONE}; }
void not_a_valid_file(const char *) { throw fault{NONE}; }
void header_too_short() { throw fault{SHORT}; }
void invalid_magic_number() { throw fault{MAGIC}; }
void cannot_read_page() { throw fault{NONE}; }
void cannot_decompress() { throw fault{NONE}; }
void invalid_buffer_access(const size_t, const size_t, const size_t) { throw fault{NONE}; }
}

// a data source: every read either fails or delivers the next bytes of the file
struct Source {
  uint64_t pos = 0, n[2] = {0, 0};
  const uint8_t *part[2] = {nullptr, nullptr};
  unsigned reads = 0;
  bool read_bytes(void *p, const size_t k) {
    vc_assert(reads < 2, "the header is read in two steps");
    const bool ok = vc_bool("the file is long enough");
    const unsigned r = reads++;
    n[r] = k;
    if (!ok) return false;
    part[r] = vc_bytes("part of the header", k);
    std::memcpy(p, part[r], k);
    pos += k;
    return true;
  }
};
struct PSource {
  Source *s = nullptr;
  PSource(Source *x) : s(x) {}
  PSource(PSource &&o) : s(o.s) { o.s = nullptr; }
  explicit operator bool() const { return s != nullptr; }
  Source *operator->() const { return s; }
};

static const uint8_t MAGIC_BYTES[32] = {0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0xc2, 0xea, 0x81, 0x60,
                                  0xb3, 0x14, 0x11, 0xcf, 0xbd, 0x92, 0x08, 0, 0x09, 0xc7, 0x31, 0x8c, 0x18, 0x1f, 0x10, 0x11};

extern "C" void proof_check_header() {
  Source s;
  Properties::Header h;
  Fault got = NONE;
  try {
    CHECK_HEADER<PSource> ch{PSource(&s)};
    const uint8_t *f = s.part[0];
    vc_assert(s.reads == 1 && f && s.n[0] == 288, "a short header is reported");
    ch.check_magic_number();
    vc_assert(std::memcmp(f, MAGIC_BYTES, 32) == 0, "a foreign file is reported");
    ch.set_aligns_endianness(&h);
    vc_assert((h.format == Format::bit64) == (f[32] == '3'), "word size");
    vc_assert((h.format == Format::bit32) == (f[32] != '3'), "word size");
    vc_assert((h.endianness == Endian::little) == (f[37] == 1), "byte order");
    vc_assert((h.endianness == Endian::big) == (f[37] != 1), "byte order");
    vc_assert(ch.is_64bit == (f[32] == '3'), "word size selected");
    vc_assert(ch.is_big_endian == (f[37] != 1), "byte order selected");
    vc_assert(ch.align1 == (f[35] == '3' ? 4 : 0), "first alignment");
    vc_assert(ch.total_align == (f[35] == '3' ? 4 : 0) + (f[32] == '3' ? 4 : 0), "total alignment");
    vc_assert(ch.buf.size() == 288, "the part of the header read so far");
    vc_assert_mem_eq(ch.buf.data(0, 288), f, 288, "the part of the header read so far");
    vc_assert(s.pos == 288 && ch.is.s == &s, "the source follows");
    vc_reach("header checked");
    return;
  } catch (const fault &x) {
    got = x.f;
  }
  const uint8_t *f = s.part[0];
  vc_assert(s.reads == 1 && s.n[0] == 288, "the first read is that of the header");
  vc_assert(got == SHORT ? !f : got == MAGIC && f && std::memcmp(f, MAGIC_BYTES, 32) != 0, "only short or foreign files are reported");
  vc_reach("header refused");
}

// get_encoding by contract: a function of its argument (proof_encoding decides the table)
static uint8_t enc_arg;
static const char *enc_text;
static uint64_t enc_size;
std::string_view cppsas7bdat::INTERNAL::get_encoding(const uint8_t e) noexcept {
  enc_arg = e;
  return {enc_text, enc_size};
}

// values of the encoding table and of the date conversion: contracts (C10 proves the latter)
// get_string_trim by contract: a function of the field (unit strings proves it)
static void same_text(const std::string &s, const uint8_t *field, uint64_t n, const char *label) {
  const std::string_view w = INTERNAL::get_string_trim(field, n);
  vc_assert(s.size() == w.size(), "length of a text");
  vc_assert_mem_eq(s.data(), w.data(), w.size(), "bytes of a text");
}
template <Endian endian, typename T> static uint64_t word(const uint8_t *f, uint64_t o) {
  uint64_t v = 0;
  for (unsigned i = 0; i < sizeof(T); ++i) v |= uint64_t(f[o + (endian == Endian::little ? i : sizeof(T) - 1 - i)]) << (8 * i);
  return v;
}

template <Endian endian, Format format, bool a1> static void header1() {
  Source s;
  Properties::Header h;
  constexpr uint64_t align2 = format == Format::bit64 ? 4 : 0;
  const uint64_t A = a1 ? 4 : 0, T = A + align2;
  Fault got = NONE;
  uint64_t length = 0;
  enc_size = vc_u64("length of the encoding name");
  vc_assume(enc_size >= 1 && enc_size <= 15); // proof_encoding
  enc_text = reinterpret_cast<const char *>(vc_bytes("encoding name", enc_size));
  try {
    CHECK_HEADER<PSource> ch{PSource(&s)};
    const uint8_t *f = s.part[0];
    vc_assume((f[35] == '3') == a1);
    vc_assume((f[32] == '3') == (format == Format::bit64));
    vc_assume((f[37] == 1) == (endian == Endian::little));
    ch.set_aligns_endianness(&h);
    length = word<endian, uint32_t>(f, 196 + A);
    READ_HEADER<PSource, endian, format> rh{std::move(ch)};
    rh.set_header_length_and_read(&h);
    vc_assert(length >= 288 + T && s.reads == 2 && s.part[1] && s.n[1] == length - 288, "a header that does not fit is reported");
    rh.set_header(&h);
    vc_assert(h.header_length == length, "header length");
    vc_assert(h.platform == (f[39] == '1' ? Platform::unix : f[39] == '2' ? Platform::windows : Platform::unknown), "platform");
    vc_assert(h.page_length == word<endian, uint32_t>(f, 200 + A), "page length");
    vc_assert(h.page_count == word<endian, uint32_t>(f, 204 + A), "page count");
    vc_assert(enc_arg == f[70], "encoding byte");
    vc_assert(h.encoding.size() == enc_size, "encoding name");
    vc_assert_mem_eq(h.encoding.data(), enc_text, enc_size, "encoding name");
    const uint8_t *b = rh.buf.data(0, 0);
    same_text(h.dataset_name, b + 92, 64, "dataset name");
    same_text(h.file_type, b + 156, 8, "file type");
    same_text(h.sas_release, b + 216 + T, 8, "release");
    same_text(h.sas_server_type, b + 224 + T, 16, "server");
    same_text(h.os_type, b + 240 + T, 16, "operating system");
    same_text(h.os_name, b + (f[272 + T] ? 272 : 256) + T, 16, "operating system name");
    vc_assert_mem_eq(b, f, 288, "the header is the first part of the file");
    vc_assert_mem_eq(b + 288, s.part[1], length - 288, "the header is the first part of the file");
    vc_assert(h.date_created == get_datetime_from_epoch(std::bit_cast<double>(word<endian, uint64_t>(f, 164 + A))), "creation date");
    vc_assert(h.date_modified == get_datetime_from_epoch(std::bit_cast<double>(word<endian, uint64_t>(f, 172 + A))), "modification date");
    vc_assert(rh.is.s == &s && s.pos == length, "the source stands at the first page");
    vc_assert(rh.buf.size() == length, "the whole header is read");
    vc_reach("header read");
    return;
  } catch (const fault &x) {
    got = x.f;
  }
  vc_assert(got == SHORT && (!s.part[0] || length < 288 + T || !s.part[1]), "only short headers are reported");
  vc_reach("header refused");
}
template <Endian endian, Format format> static void header() {
  if (vc_bool("first alignment")) header1<endian, format, true>();
  else header1<endian, format, false>();
}
extern "C" void proof_read_header_le64() { header<Endian::little, Format::bit64>(); }
extern "C" void proof_read_header_le32() { header<Endian::little, Format::bit32>(); }
extern "C" void proof_read_header_be64() { header<Endian::big, Format::bit64>(); }
extern "C" void proof_read_header_be32() { header<Endian::big, Format::bit32>(); }

// the whole path: READ::header on a real data source object, every combination selected
cppsas7bdat::Reader::DataSourceConcept::~DataSourceConcept() = default;
struct Handle {
  Source *s;
  bool eof() { return false; }
  bool read_bytes(void *p, const size_t k) { return s->read_bytes(p, k); }
};
extern "C" void proof_header_dispatch() {
  Source s;
  Properties::Header h;
  enc_size = 5;
  enc_text = reinterpret_cast<const char *>(vc_bytes("encoding name", enc_size));
  try {
    auto rh = READ::header(Reader::build_source(Handle{&s}), &h);
    const uint8_t *f = s.part[0];
    const size_t want = (f[37] == 1 ? 2 : 0) + (f[32] == '3' ? 0 : 1);
    vc_assert(rh.index() == want, "byte order and word size select how the file is read");
    vc_assert(s.reads == 2 && s.part[0] && s.part[1], "the header is read");
    vc_reach("header read");
  } catch (const fault &x) {
    vc_assert(x.f == MAGIC || x.f == SHORT, "refused as no SAS file or as too short");
    vc_reach("header refused");
  }
}
