// Hexadecimal codec: contracts from base/hexadecimal.hpp.  Contents symbolic, sizes enumerated.
// pv-bounded: vcF_hex_encode input sizes 0..24, 33 and 64 bytes, all contents, overlaps -1..1 and disjoint
// pv-bounded: vcF_hex_encode_nul input sizes 0..24, 33 and 64 bytes, all contents, overlaps -1..1 and disjoint
// pv-bounded: vcF_hex_decode input sizes 0..32, 65 and 128 characters, all contents, overlaps -1..1 and disjoint
// pv-bounded: vcF_hex_owned input sizes 0..12
#include "vc.hpp"
#include "base/array.hpp"
#include "base/hexadecimal.hpp"
using namespace principia::base::_array;
using namespace principia::base::_hexadecimal;
namespace {
constexpr int big = 300;
char digit(int n) { return n < 10 ? '0' + n : 'A' + (n - 10); }
struct Nibbles {
  std::uint8_t v[256] = {};
  constexpr Nibbles() {
    for (int k = 0; k < 10; ++k) v['0' + k] = k;
    for (int k = 0; k < 6; ++k) v['A' + k] = v['a' + k] = 10 + k;
  }
};
constexpr Nibbles nibbles;
int nibble(std::uint8_t c) { return nibbles.v[c]; }
// The output starts at `o` and the input at `i` within a common buffer of arbitrary contents.
template<bool nul> void encode(int n, int o, int i, int extra) {
  std::uint8_t* const m = static_cast<std::uint8_t*>(vc_array("m", big));
  static std::uint8_t old[big];
  for (int k = 0; k < big; ++k) old[k] = m[k];
  HexadecimalEncoder<nul> e;
  Array<std::uint8_t const> const in(m + i, n);
  ENSURE(e.EncodedLength(in) == 2 * n + (nul ? 1 : 0));
  e.Encode(in, Array<char>(reinterpret_cast<char*>(m + o), 2 * n + (nul ? 1 : 0) + extra));
  for (int k = 0; k < n; ++k) {
    ENSURE(m[o + 2 * k] == digit(old[i + k] >> 4));
    ENSURE(m[o + 2 * k + 1] == digit(old[i + k] & 15));
  }
  if (nul) ENSURE(m[o + 2 * n] == 0);
  for (int k = 0; k < big; ++k) if (k < o || k >= o + 2 * n + (nul ? 1 : 0)) ENSURE(m[k] == old[k]);
}
template<bool nul> void encodings() {
  for (int n = 0; n <= 24; ++n) { encode<nul>(n, 4, 4, n % 3); }
  for (int n = 1; n <= 8; ++n) { encode<nul>(n, 4, 5, 0); encode<nul>(n, 6, 4, 1); encode<nul>(n, 4, 4 + 2 * n, 0); encode<nul>(n, 4, 4 + 2 * n + 1, 3); encode<nul>(n, 4 + n, 4, 0); }
  for (int n : {33, 64}) encode<nul>(n, 3, 4, 5);
}
void decode(int n, int o, int i, int extra) {
  std::uint8_t* const m = static_cast<std::uint8_t*>(vc_array("m", big));
  static std::uint8_t old[big];
  for (int k = 0; k < big; ++k) old[k] = m[k];
  HexadecimalEncoder<false> e;
  Array<char const> const in(reinterpret_cast<char*>(m + i), n);
  ENSURE(e.DecodedLength(in) == n / 2);
  e.Decode(in, Array<std::uint8_t>(m + o, n / 2 + extra));
  for (int k = 0; k < n / 2; ++k) ENSURE(m[o + k] == nibble(old[i + 2 * k]) * 16 + nibble(old[i + 2 * k + 1]));
  for (int k = 0; k < big; ++k) if (k < o || k >= o + n / 2) ENSURE(m[k] == old[k]);
}
template<bool nul> void owned(int n) {
  std::uint8_t* const m = static_cast<std::uint8_t*>(vc_array("m", n + 1));
  HexadecimalEncoder<nul> e;
  auto const text = e.Encode(Array<std::uint8_t const>(m, n));
  ENSURE(text.size == 2 * n + (nul ? 1 : 0));
  for (int k = 0; k < n; ++k) { ENSURE(text.data[2 * k] == digit(m[k] >> 4)); ENSURE(text.data[2 * k + 1] == digit(m[k] & 15)); }
  if (nul && n > 0) ENSURE(text.data[2 * n] == 0);
  auto const back = e.Decode(Array<char const>(text.data.get(), 2 * n));
  ENSURE(back.size == n);
  for (int k = 0; k < n; ++k) ENSURE(back.data[k] == m[k]);
}
}
F_SPEC(hex_encode) { encodings<false>(); }
F_SPEC(hex_encode_nul) { encodings<true>(); }
F_SPEC(hex_decode) {
  for (int n = 0; n <= 32; ++n) { decode(n, 4, 4, n % 3); }
  for (int n = 0; n <= 9; ++n) { decode(n, 5, 4, 0); decode(n, 4, 8, 0); decode(n, 4 + (n & ~1), 4, 2); }
  for (int n : {65, 128}) decode(n, 3, 4, 5);
}
// Every placement is either refused or handled correctly; those that the header allows (above) are not refused.
// pv-bounded: vcF_hex_encode_overlap input sizes 1..6, all contents, output from 14 bytes before to 6 bytes after the input
// pv-bounded: vcF_hex_decode_overlap input sizes 1..8, all contents, output from 6 bytes before to 8 bytes after the input
namespace {
template<bool nul> void encode_overlaps() {
  encode<nul>(3, 16, 16, 0); vc_may_abort(1);
  int const n = vc_concretize(vc_u32("n") & 7), o = vc_concretize(vc_u32("o") & 31);
  vc_assume(n >= 1 && n <= 6 && o >= 2 && o <= 22);
  encode<nul>(n, o, 16, 0);
}
}
F_SPEC(hex_encode_overlap) { if (vc_fork(vc_bool("nul"))) encode_overlaps<true>(); else encode_overlaps<false>(); }
F_SPEC(hex_decode_overlap) {
  decode(4, 16, 16, 0); vc_may_abort(1);
  int const n = vc_concretize(vc_u32("n") & 15), o = vc_concretize(vc_u32("o") & 31);
  vc_assume(n >= 1 && n <= 8 && o >= 10 && o <= 24);
  decode(n, o, 16, 0);
}
F_SPEC(hex_owned) { for (int n = 0; n <= 12; ++n) { owned<false>(n); owned<true>(n); } }
