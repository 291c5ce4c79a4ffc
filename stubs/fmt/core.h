// contract stub of fmt: the formats used by the library, rendered by their definition
#pragma once
#include <cstddef>
#include <cstdint>
#include <string>
#include <string_view>
#include <vc.hpp>
#define FMT_ASSERT(condition, message) ((void)0)
namespace fmt {
template <typename... A> inline std::string format(const A &...) { return std::string(); }

namespace stub {
struct out {
  char *p;
  size_t n, size;
  void put(char c) {
    if (size < n) p[size] = c;
    ++size;
  }
  // an unsigned decimal number of at least width digits ('0' padding)
  template <unsigned K, uint64_t D> void digits(uint64_t v, unsigned width) {
    if constexpr (K > 1) {
      if (width < K && v < D) return digits<K - 1, D / 10>(v, width);
    }
    emit<K, D>(v);
  }
  template <unsigned K, uint64_t D> void emit(uint64_t v) {
    put(char('0' + (v / D) % 10));
    if constexpr (K > 1) emit<K - 1, D / 10>(v);
  }
  void number(uint64_t v, unsigned width) { digits<19, 1000000000000000000ull>(v, width); }
};
struct arg {
  int64_t v;
  template <typename T> arg(const T &x) : v(int64_t(x)) {}
};
} // namespace stub
template <typename It> struct format_to_n_result { It out; size_t size; };
// {:0W} of integers and literal text only
template <typename... A>
inline format_to_n_result<char *> format_to_n(char *buf, size_t n, const char *f, const A &...a) {
  const stub::arg args[] = {stub::arg(a)..., stub::arg(0)};
  stub::out o{buf, n, 0};
  unsigned next = 0;
  for (; *f; ++f) {
    if (*f != '{') {
      o.put(*f);
      continue;
    }
    vc_assert(f[1] == ':' && f[2] == '0' && f[3] >= '1' && f[3] <= '9' && f[4] == '}', "format string within the stub's subset");
    vc_assert(next < sizeof...(A), "one argument for every replacement field");
    const int64_t v = args[next++].v;
    unsigned width = f[3] - '0';
    if (v < 0) {
      o.put('-');
      o.number(uint64_t(-v), width - 1);
    } else
      o.number(uint64_t(v), width);
    f += 4;
  }
  return {buf + (o.size < n ? o.size : n), o.size};
}
} // namespace fmt
