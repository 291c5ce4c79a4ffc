// Pages of a SAS7BDAT file, as specified: executable, on the raw bytes.
#pragma once
#include <cstdint>
namespace spec {
template <bool little, typename T> static uint64_t word(const uint8_t *f, uint64_t o) {
  uint64_t v = 0;
  for (unsigned i = 0; i < sizeof(T); ++i) v |= uint64_t(f[o + (little ? i : sizeof(T) - 1 - i)]) << (8 * i);
  return v;
}
template <bool little, bool wide> struct Page {
  static constexpr uint64_t HEAD = wide ? 32 : 16, INT = wide ? 8 : 4, ENTRY = 3 * INT;
  const uint8_t *p;
  uint64_t n;
  uint64_t type() const { return word<little, uint16_t>(p, HEAD); }
  uint64_t blocks() const { return word<little, uint16_t>(p, HEAD + 2); }
  uint64_t subheaders() const { return word<little, uint16_t>(p, HEAD + 4); }
  uint64_t uint(uint64_t o) const { return wide ? word<little, uint64_t>(p, o) : word<little, uint32_t>(p, o); }
  struct Entry { bool ok; uint64_t offset, length; uint8_t compression, type; };
  Entry entry(uint64_t i) const {
    const uint64_t at = HEAD + 8 + i * ENTRY;
    if (at > n || ENTRY > n - at) return {false, 0, 0, 0, 0};
    Entry e{true, uint(at), uint(at + INT), p[at + 2 * INT], p[at + 2 * INT + 1]};
    e.ok = e.offset <= n && e.length <= n - e.offset;
    return e;
  }
  static bool holds_row(const Entry &e, bool compressed) {
    return e.length != 0 && e.compression != 1 && compressed && (e.compression == 4 || e.compression == 0) && e.type == 1;
  }
  uint64_t mix_offset() const {
    const uint64_t o = HEAD + 8 + subheaders() * ENTRY;
    return o + o % 8;
  }
};
} // namespace spec
