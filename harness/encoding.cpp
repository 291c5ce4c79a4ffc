// C07: the encoding table.  src/encodings.cpp.
#include "vc.hpp"
#include <string_view>
#include <utility>
#include "encodings.cpp"
#include "../replay/encodings_ref.hpp"

template <int I> static void one() {
  constexpr std::string_view want = encoding_name(I);
  const std::string_view got = cppsas7bdat::INTERNAL::get_encoding(I);
  vc_assert(got.size() == want.size(), "encoding name");
  vc_assert_mem_eq(got.data(), want.data(), want.size(), "encoding name");
  vc_assert(want.size() > 0 && want.size() <= 15, "encoding names are short");
}
template <int... I> static void all(std::integer_sequence<int, I...>) { (one<I>(), ...); }
extern "C" void proof_encoding() {
  all(std::make_integer_sequence<int, 256>());
  vc_reach("every encoding byte");
}
