// P13: bit counting, powers of two, byte order conversion, strong index types
#include "vp.h"

#include <cstdint>

#include "cista/bit_counting.h"
#include "cista/chunk.h"
#include "cista/endian/conversion.h"
#include "cista/next_power_of_2.h"
#include "cista/strong.h"

using namespace cista;

// ---- bit counting: results are the definitional ones
template <typename T>
void trailing() {
  auto const x = vp::any<T>("x");
  auto const r = trailing_zeros(x);
  constexpr unsigned W = sizeof(T) * 8;
  vp_assert(r <= W, "range");
  vp_assert((r == W) == (x == 0), "W iff zero");
  if (x != 0) {
    vp_assert(((x >> r) & 1) == 1, "bit at r is set");
    vp_assert((x & ((T{1} << r) - 1)) == 0, "bits below r are clear");
  }
}
template <typename T>
void leading() {
  auto const x = vp::any<T>("x");
  auto const r = leading_zeros(x);
  constexpr unsigned W = sizeof(T) * 8;
  vp_assert(r <= W, "range");
  vp_assert((r == W) == (x == 0), "W iff zero");
  if (x != 0) {
    vp_assert((x >> (W - 1 - r)) == 1, "highest set bit is at W-1-r");
  }
}
template <typename T>
void ctrailing() {
  auto const x = vp::any<T>("x");
  constexpr unsigned W = sizeof(T) * 8;
  vp_assume(x != 0);
  auto const r = constexpr_trailing_zeros(x);
  vp_assert(r < W, "range");
  vp_assert(((x >> r) & 1) == 1, "bit at r is set");
  for (unsigned i = 0; i != W; ++i) {
    vp_assert(i >= r || ((x >> i) & 1) == 0, "bits below r are clear");
  }
}
OBLIGATION(trailing_zeros_u64) { trailing<uint64_t>(); }
OBLIGATION(trailing_zeros_u32) { trailing<uint32_t>(); }
OBLIGATION(trailing_zeros_size_t) { trailing<std::size_t>(); }
OBLIGATION(leading_zeros_u64) { leading<uint64_t>(); }
OBLIGATION(leading_zeros_u32) { leading<uint32_t>(); }
OBLIGATION(constexpr_trailing_zeros_u64) { ctrailing<uint64_t>(); }
OBLIGATION(constexpr_trailing_zeros_u32) { ctrailing<uint32_t>(); }
OBLIGATION(constexpr_trailing_zeros_u16) { ctrailing<uint16_t>(); }
OBLIGATION(constexpr_trailing_zeros_u8) { ctrailing<uint8_t>(); }

OBLIGATION(popcount_is_sum_of_bits) {
  auto const x = vp::any<uint64_t>("x");
  uint8_t s = 0;
  for (int i = 0; i != 64; ++i) {
    s = static_cast<uint8_t>(s + ((x >> i) & 1));
  }
  vp_assert(popcount(x) == s, "sum of bits");
}

// ---- next power of two
template <typename T>
void npot() {
  auto const n = vp::any<T>("n");
  vp_assume(n >= 1 && n <= static_cast<T>(T{1} << (sizeof(T) * 8 - 1)));
  auto const r = next_power_of_two(n);
  vp_assert(r >= n, "not smaller");
  vp_assert(r != 0 && (r & static_cast<T>(r - 1)) == 0, "power of two");
  vp_assert(r == 1 || static_cast<T>(r >> 1) < n, "smallest such");
}
OBLIGATION(next_power_of_two_u8) { npot<uint8_t>(); }
OBLIGATION(next_power_of_two_u16) { npot<uint16_t>(); }
OBLIGATION(next_power_of_two_u32) { npot<uint32_t>(); }
OBLIGATION(next_power_of_two_u64) { npot<uint64_t>(); }

// ---- byte order
template <typename T, typename B>
void swp() {
  B const x = vp::any<B>("x");
  T t;
  std::memcpy(&t, &x, sizeof(T));
  T const s = endian_swap(t);
  unsigned char a[sizeof(T)], b[sizeof(T)];
  std::memcpy(a, &t, sizeof(T));
  std::memcpy(b, &s, sizeof(T));
  for (unsigned i = 0; i != sizeof(T); ++i) {
    vp_assert(a[i] == b[sizeof(T) - 1 - i], "bytes reversed");
  }
  T const u = endian_swap(s);
  unsigned char c[sizeof(T)];
  std::memcpy(c, &u, sizeof(T));
  for (unsigned i = 0; i != sizeof(T); ++i) {
    vp_assert(a[i] == c[i], "own inverse");
  }
  // conversion to the machine's own order changes nothing, to the other one swaps
  T const n = convert_endian<mode::NONE>(t);
  T const n2 = convert_endian<mode::WITH_VERSION | mode::WITH_INTEGRITY | mode::DEEP_CHECK>(t);
  T const g = convert_endian<mode::SERIALIZE_BIG_ENDIAN>(t);
  T const g2 = convert_endian<mode::SERIALIZE_BIG_ENDIAN | mode::UNCHECKED | mode::WITH_STATIC_VERSION>(t);
  unsigned char d[4][sizeof(T)];
  std::memcpy(d[0], &n, sizeof(T));
  std::memcpy(d[1], &n2, sizeof(T));
  std::memcpy(d[2], &g, sizeof(T));
  std::memcpy(d[3], &g2, sizeof(T));
  for (unsigned i = 0; i != sizeof(T); ++i) {
    vp_assert(d[0][i] == a[i], "little endian mode is the identity here");
    vp_assert(d[1][i] == a[i], "little endian mode is the identity here");
    vp_assert(d[2][i] == b[i], "big endian mode reverses");
    vp_assert(d[3][i] == b[i], "big endian mode reverses");
  }
}
enum class e8 : uint8_t { A };
enum class e16 : int16_t { A };
enum class e32 : uint32_t { A };
enum class e64 : int64_t { A };
using st32 = strong<uint32_t, struct st32_>;
OBLIGATION(endian_u8) { swp<uint8_t, uint8_t>(); }
OBLIGATION(endian_i8) { swp<int8_t, uint8_t>(); }
OBLIGATION(endian_u16) { swp<uint16_t, uint16_t>(); }
OBLIGATION(endian_i16) { swp<int16_t, uint16_t>(); }
OBLIGATION(endian_u32) { swp<uint32_t, uint32_t>(); }
OBLIGATION(endian_i32) { swp<int32_t, uint32_t>(); }
OBLIGATION(endian_u64) { swp<uint64_t, uint64_t>(); }
OBLIGATION(endian_i64) { swp<int64_t, uint64_t>(); }
OBLIGATION(endian_e8) { swp<e8, uint8_t>(); }
OBLIGATION(endian_e16) { swp<e16, uint16_t>(); }
OBLIGATION(endian_e32) { swp<e32, uint32_t>(); }
OBLIGATION(endian_e64) { swp<e64, uint64_t>(); }
OBLIGATION(endian_float) { swp<float, uint32_t>(); }
OBLIGATION(endian_double) { swp<double, uint64_t>(); }

// ---- mode queries
OBLIGATION(mode_bits) {
  auto const a = static_cast<mode>(vp::any<uint32_t>("a"));
  auto const b = static_cast<mode>(vp::any<uint32_t>("b"));
  using u = std::underlying_type_t<mode>;
  vp_assert(static_cast<u>(a | b) == (static_cast<u>(a) | static_cast<u>(b)), "or");
  vp_assert(static_cast<u>(a & b) == (static_cast<u>(a) & static_cast<u>(b)), "and");
  vp_assert(is_mode_enabled(a, b) == ((static_cast<u>(a) & static_cast<u>(b)) == static_cast<u>(b)), "enabled = all bits set");
  vp_assert(is_mode_disabled(a, b) == ((static_cast<u>(a) & static_cast<u>(b)) == 0), "disabled = no bit set");
}

// ---- strong index types compute what the underlying integers compute
template <typename T>
void strong_arith() {
  using S = strong<T, struct tag_>;
  auto const x = vp::any<T>("x");
  auto const y = vp::any<T>("y");
  S const a{x}, b{y};
  vp_assert(to_idx(a) == x && a.v_ == x, "value");
  vp_assert((a + b).v_ == static_cast<T>(x + y), "+");
  vp_assert((a - b).v_ == static_cast<T>(x - y), "-");
  vp_assert((a + y).v_ == static_cast<T>(x + y), "+");
  vp_assert((a - y).v_ == static_cast<T>(x - y), "-");
  vp_assert((a == b) == (x == y) && (a != b) == (x != y), "==");
  vp_assert((a < b) == (x < y) && (a <= b) == (x <= y), "<");
  vp_assert((a > b) == (x > y) && (a >= b) == (x >= y), ">");
  vp_assert((a == y) == (x == y) && (a != y) == (x != y), "==");
  vp_assert((a < y) == (x < y) && (a <= y) == (x <= y), "<");
  vp_assert((a > y) == (x > y) && (a >= y) == (x >= y), ">");
  S c{a};
  vp_assert((++c).v_ == static_cast<T>(x + 1) && c.v_ == static_cast<T>(x + 1), "++pre");
  S d{a};
  vp_assert((d++).v_ == x && d.v_ == static_cast<T>(x + 1), "post++");
  S e{a};
  vp_assert((--e).v_ == static_cast<T>(x - 1) && e.v_ == static_cast<T>(x - 1), "--pre");
  S f{a};
  vp_assert((f--).v_ == x && f.v_ == static_cast<T>(x - 1), "post--");
  S g{a};
  g += y;
  vp_assert(g.v_ == static_cast<T>(x + y), "+=");
  S h{a};
  h -= y;
  vp_assert(h.v_ == static_cast<T>(x - y), "-=");
  S o{a};
  o |= b;
  vp_assert(o.v_ == static_cast<T>(x | y), "|=");
  S p{a};
  p &= b;
  vp_assert(p.v_ == static_cast<T>(x & y), "&=");
  if (y < sizeof(T) * 8) {
    vp_assert((a >> y).v_ == static_cast<T>(x >> y), ">>");
    vp_assert((a << y).v_ == static_cast<T>(x << y), "<<");
  }
  S q{a};
  q = b;
  vp_assert(q.v_ == y, "assign");
  vp_assert(S::invalid().v_ == static_cast<T>(~T{0}), "invalid = largest");
  vp_assert(static_cast<T const&>(a) == x, "conversion");
  vp_assert(std::numeric_limits<S>::max().v_ == std::numeric_limits<T>::max(), "limits");
  vp_assert(std::numeric_limits<S>::min().v_ == std::numeric_limits<T>::min(), "limits");
}
OBLIGATION(strong_u8) { strong_arith<uint8_t>(); }
OBLIGATION(strong_u16) { strong_arith<uint16_t>(); }
OBLIGATION(strong_u32) { strong_arith<uint32_t>(); }
OBLIGATION(strong_u64) { strong_arith<uint64_t>(); }
template <typename T>
void strong_mul() {
  using S = strong<T, struct tag_>;
  auto const x = vp::any<T>("x");
  auto const y = vp::any<T>("y");
  if constexpr (sizeof(T) != 2) {  // uint16*uint16 promotes to int and may overflow
    vp_assert((S{x} * S{y}).v_ == static_cast<T>(x * y), "*");
    vp_assert((S{x} * y).v_ == static_cast<T>(x * y), "*");
  }
  vp_assume(y != 0);
  vp_assert((S{x} / S{y}).v_ == static_cast<T>(x / y), "/");
  vp_assert((S{x} / y).v_ == static_cast<T>(x / y), "/");
}
OBLIGATION(strong_mul_u8) { strong_mul<uint8_t>(); }
OBLIGATION(strong_mul_u16) { strong_mul<uint16_t>(); }
OBLIGATION(strong_mul_u32) { strong_mul<uint32_t>(); }
OBLIGATION(strong_mul_u64) { strong_mul<uint64_t>(); }
