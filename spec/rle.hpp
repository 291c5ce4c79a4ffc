// Specification of SASYZCRL (RLE) rows, executable.
#pragma once
#include <cstdint>
#include <cstring>
namespace spec {
struct Codec {
  const uint8_t *src;
  uint64_t n_src;
  uint8_t *out;
  uint64_t n_dst;
  uint64_t i, d; // bytes consumed / produced
  // RDC only
  uint32_t ctrl, mask;
};
enum Status { CONT, DONE, FAIL };

inline Status put_fill(Codec &g, uint8_t v, uint64_t n) {
  if (n > g.n_dst - g.d) return FAIL;
  std::memset(g.out + g.d, v, n);
  g.d += n;
  return CONT;
}
inline Status put_src(Codec &g, uint64_t n) {
  const uint64_t left = g.n_src - g.i;
  if (n > left) n = left;
  if (n > g.n_dst - g.d) return FAIL;
  std::memcpy(g.out + g.d, g.src + g.i, n);
  g.d += n;
  g.i += n;
  return CONT;
}
// one command
inline Status rle_step(Codec &g) {
  if (!(g.i < g.n_src && g.d < g.n_dst)) return DONE;
  const uint8_t c = g.src[g.i];
  const uint8_t hi = c >> 4, lo = c & 15;
  const uint64_t left = g.n_src - g.i - 1; // operand bytes available
  const uint64_t op1 = left >= 1 ? g.src[g.i + 1] : 0;
  switch (hi) {
  case 0:
    if (left < 1) return FAIL;
    g.i += 2;
    return put_src(g, lo * 256u + op1 + 64);
  case 4:
    if (left < 2) return FAIL;
    g.i += 3;
    return put_fill(g, g.src[g.i - 1], lo * 16u + op1 + 18);
  case 5:
  case 6:
  case 7:
    if (left < 1) return FAIL;
    g.i += 2;
    return put_fill(g, hi == 5 ? '@' : hi == 6 ? ' ' : 0, lo * 256u + op1 + 17);
  case 8:
  case 9:
  case 10:
  case 11:
    g.i += 1;
    return put_src(g, lo + 1 + 16u * (hi - 8));
  case 12:
    if (left < 1) return FAIL;
    g.i += 2;
    return put_fill(g, uint8_t(op1), lo + 3u);
  case 13:
  case 14:
  case 15:
    g.i += 1;
    return put_fill(g, hi == 13 ? '@' : hi == 14 ? ' ' : 0, lo + 2u);
  default:
    return FAIL; // 1, 2 and 3 are not commands
  }
}

// one item of SASYZCR2 (RDC); the 16 bit control words are big endian, their
// bits are used from the most significant one
inline Status rdc_step(Codec &g) {
  if (!(g.i < g.n_src && g.d < g.n_dst)) return DONE;
  uint64_t i = g.i;
  uint32_t m = g.mask >> 1;
  if (m == 0) {
    if (g.n_src - i < 2) return FAIL;
    g.ctrl = (uint32_t(g.src[i]) << 8) + g.src[i + 1];
    i += 2;
    m = 0x8000;
  }
  g.mask = m;
  const uint64_t left = g.n_src - i;
  if ((g.ctrl & m) == 0) {
    if (left < 1) return FAIL;
    g.i = i + 1;
    return put_fill(g, g.src[i], 1);
  }
  if (left < 2) return FAIL;
  const uint32_t cmd = g.src[i] >> 4, lo = g.src[i] & 15, b1 = g.src[i + 1];
  if (cmd == 0) {
    g.i = i + 2;
    return put_fill(g, uint8_t(b1), lo + 3);
  }
  if (cmd == 1) {
    if (left < 3) return FAIL;
    g.i = i + 3;
    return put_fill(g, g.src[i + 2], lo + 16u * b1 + 19);
  }
  const uint64_t ofs = lo + 3 + 16u * b1;
  uint64_t cnt = cmd;
  g.i = i + 2;
  if (cmd == 2) {
    if (left < 3) return FAIL;
    cnt = g.src[i + 2] + 16u;
    g.i = i + 3;
  }
  if (cnt > g.n_dst - g.d || ofs > g.d) return FAIL;
#ifdef VC_NATIVE
  for (uint64_t k = 0; k < cnt; ++k) g.out[g.d + k] = g.out[g.d + k - ofs];
#else
  vc_fwdcopy(g.out, g.d, g.d - ofs, cnt);
#endif
  g.d += cnt;
  return CONT;
}
} // namespace spec
