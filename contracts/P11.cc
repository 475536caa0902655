// P11: a fixed-size bit set behaves as a sequence of bits.
// Abstract view of a bitset<N> object: bit(b, i) for i < N, read from the block array; blocks
// are arbitrary (all 2^64 values, including garbage beyond the size).
#include "vp.h"

#include "cista/containers/bitset.h"

using namespace cista;

template <std::size_t N>
bool bit(bitset<N> const& b, std::size_t i) {
  return i < N && ((b.blocks_[i / 64] >> (i % 64)) & 1) != 0;
}
template <std::size_t N>
bitset<N> arb() {
  bitset<N> b;
  for (auto& x : b.blocks_) {
    x = vp::any<uint64_t>("block");
  }
  return b;
}
template <std::size_t N>
std::size_t idx(char const* n) {
  return vp::any_in<std::size_t>(n, 0, N - 1);
}

template <std::size_t N>
void point_ops() {
  auto b = arb<N>();
  auto const o = b;
  auto const i = idx<N>("i");
  auto const j = idx<N>("j");
  vp_assert(b.size() == N, "size");
  vp_assert(b.test(j) == bit(o, j), "test");
  vp_assert(b[j] == bit(o, j), "operator[]");
  auto const beyond = vp::any<std::size_t>("beyond");
  vp_assert(beyond < N || !b.test(beyond), "nothing observable beyond the size");
  auto const v = vp::any<bool>("v");
  b.set(i, v);
  vp_assert(b.test(j) == (i == j ? v : bit(o, j)), "set changes exactly bit i");
  auto c = o;
  c.set(i);
  vp_assert(c.test(j) == (i == j || bit(o, j)), "set() sets exactly bit i");
  auto d = o;
  d.reset();
  vp_assert(!d.test(j), "reset clears every bit");
  vp_assert(!bitset<N>{}.test(j), "default is empty");
  vp_assert(bitset<N>::max().test(j), "max has every bit");
}

template <std::size_t N>
void bulk_ops() {
  auto const a = arb<N>();
  auto const b = arb<N>();
  auto const j = idx<N>("j");
  auto const x = bit(a, j), y = bit(b, j);
  vp_assert((a & b).test(j) == (x && y), "&");
  vp_assert((a | b).test(j) == (x || y), "|");
  vp_assert((a ^ b).test(j) == (x != y), "^");
  vp_assert((~a).test(j) == !x, "~");
  auto c = a;
  c &= b;
  vp_assert(c.test(j) == (x && y), "&=");
  c = a;
  c |= b;
  vp_assert(c.test(j) == (x || y), "|=");
  c = a;
  c ^= b;
  vp_assert(c.test(j) == (x != y), "^=");
  auto const beyond = vp::any<std::size_t>("beyond");
  vp_assert(beyond < N || (!(~a).test(beyond) && !c.test(beyond)), "nothing observable beyond the size");
}

template <std::size_t N>
void shifts() {
  auto const a = arb<N>();
  auto const j = idx<N>("j");
  constexpr unsigned B = (N + 63) / 64 + 1;
  auto const sb = vp::enumerate<B>(vp::any<uint8_t>("shift_blocks"));
  auto const s = static_cast<std::size_t>(sb) * 64 + static_cast<std::size_t>(vp::any<uint8_t>("shift_bits") & 63);
  vp_assert((a >> s).test(j) == (s < N && j + s < N && bit(a, j + s)), ">>");
  vp_assert((a << s).test(j) == (j >= s && bit(a, j - s)), "<<");
  auto c = a;
  c >>= s;
  vp_assert(c.test(j) == (s < N && j + s < N && bit(a, j + s)), ">>=");
  c = a;
  c <<= s;
  vp_assert(c.test(j) == (j >= s && bit(a, j - s)), "<<=");
  auto const beyond = vp::any<std::size_t>("beyond");
  vp_assert(beyond < N || !c.test(beyond), "nothing observable beyond the size");
}
template <std::size_t N>
void huge_shift() {
  auto const a = arb<N>();
  auto const s = vp::any<std::size_t>("s");
  vp_assume(s >= N);
  auto const j = idx<N>("j");
  vp_assert(!(a >> s).test(j) && !(a << s).test(j), "everything shifted out");
}

template <std::size_t N>
void counting() {
  auto const a = arb<N>();
  std::size_t sum = 0;
  bool any = false, every = true;
  for (std::size_t b = 0; b != (N + 63) / 64; ++b) {
    uint8_t s = 0;
    uint64_t acc = 0, bcc = ~uint64_t{0};
    for (std::size_t i = 0; i != 64; ++i) {
      if (b * 64 + i < N) {
        s = static_cast<uint8_t>(s + ((a.blocks_[b] >> i) & 1));
        acc |= (a.blocks_[b] >> i) & 1;
        bcc &= (a.blocks_[b] >> i) & 1;
      }
    }
    sum += s;
    any = any | (acc != 0);
    every = every & (bcc != 0);
  }
  vp_assert(a.count() == sum, "count = number of set bits");
  vp_assert(a.any() == any, "any");
  vp_assert(a.none() == !any, "none");
}

template <std::size_t N>
void compare() {
  auto const a = arb<N>();
  auto const b = arb<N>();
  // numbers: the highest differing 64-bit digit decides, bits at and above N do not count
  bool eq = true, lt = false;
  for (std::size_t i = 0; i != (N + 63) / 64; ++i) {
    auto const mask = (i + 1) * 64 <= N ? ~std::uint64_t{0} : (std::uint64_t{1} << (N % 64)) - 1;
    auto const x = a.blocks_[i] & mask, y = b.blocks_[i] & mask;
    eq = eq & (x == y);
    lt = (x < y) | ((x == y) & lt);
  }
  vp_assert((a == b) == eq, "==");
  vp_assert((a != b) == !eq, "!=");
  vp_assert((a < b) == lt, "<");
  vp_assert((a > b) == (!lt & !eq), ">");
  vp_assert((a <= b) == (lt | eq), "<=");
  vp_assert((a >= b) == !lt, ">=");
}

template <std::size_t N>
void foreach() {
  auto const b = arb<N>();
  auto const k = idx<N>("k");
  std::size_t last = 0, visits = 0;
  bool first = true, ok = true;
  b.for_each_set_bit([&](std::size_t i) {
    ok = ok & (i < N) & b.test(i) & (first | (i > last));
    first = false;
    last = i;
    visits += (i == k);
  });
  vp_assert(ok, "visits set bits below the size in increasing order");
  vp_assert(visits == (bit(b, k) ? 1 : 0), "visits every set bit exactly once");
}

#define SIZE(N)                                   \
  OBLIGATION(point_ops_##N) { point_ops<N>(); }   \
  OBLIGATION(bulk_ops_##N) { bulk_ops<N>(); }     \
  OBLIGATION(shifts_##N) { shifts<N>(); }         \
  OBLIGATION(huge_shift_##N) { huge_shift<N>(); } \
  OBLIGATION(counting_##N) { counting<N>(); }     \
  OBLIGATION(compare_##N) { compare<N>(); }
SIZE(1)
SIZE(7)
SIZE(63)
SIZE(64)
SIZE(65)
SIZE(100)
SIZE(128)
SIZE(130)
SIZE(192)
OBLIGATION(foreach_5) { foreach<5>(); }
OBLIGATION(foreach_64) { foreach<64>(); }
OBLIGATION(foreach_70) { foreach<70>(); }

// construction from text: character s[len-1-i] decides bit i, '0' clears, everything else sets
template <std::size_t N>
void text(std::size_t len) {
  auto* p = vp::any_array<char>(len, "text");
  auto b = arb<N>();
  auto const o = b;
  auto const j = idx<N>("j");
  std::string_view const s{p, len};
  b.set(s);
  vp_assert(b.test(j) == (j < len ? p[len - 1 - j] != '0' : bit(o, j)), "set from text");
  bitset<N> const c{s};
  vp_assert(c.test(j) == (j < len && p[len - 1 - j] != '0'), "constructed from text");
}
OBLIGATION(text_5_3) { text<5>(3); }
OBLIGATION(text_5_5) { text<5>(5); }
OBLIGATION(text_5_9) { text<5>(9); }
OBLIGATION(text_66_66) { text<66>(66); }
OBLIGATION(text_66_70) { text<66>(70); }
OBLIGATION(text_66_0) { text<66>(0); }

template <std::size_t N>
void to_text() {
  auto const b = arb<N>();
  auto const s = b.to_string();
  vp_assert(s.size() == N, "one character per bit");
  for (std::size_t i = 0; i != N; ++i) {
    vp_assert(s[i] == (bit(b, N - 1 - i) ? '1' : '0'), "to_string: highest bit first");
  }
}
OBLIGATION(to_text_5) { to_text<5>(); }
OBLIGATION(to_text_15) { to_text<15>(); }
OBLIGATION(to_text_66) { to_text<66>(); }

// random operation sequences against a plain array of bits
template <std::size_t N>
void history() {
  bitset<N> b;
  bool m[N] = {};
  auto const steps = vp::any_in<unsigned>("steps", 1, 12);
  for (unsigned q = 0; q != steps; ++q) {
    auto const i = vp::any_in<std::size_t>("i", 0, N - 1);
    bool n[N] = {};
    switch (vp::any_in<unsigned>("op", 0, 8)) {
      case 0: b.set(i, true); m[i] = true; break;
      case 1: b.set(i, false); m[i] = false; break;
      case 2: b = ~b; for (auto& x : m) x = !x; break;
      case 3: b <<= i; for (std::size_t k = i; k < N; ++k) n[k] = m[k - i]; std::memcpy(m, n, N); break;
      case 4: b >>= i; for (std::size_t k = 0; k + i < N; ++k) n[k] = m[k + i]; std::memcpy(m, n, N); break;
      case 5: b.reset(); std::memset(m, 0, N); break;
      case 6: b = bitset<N>::max(); std::memset(m, 1, N); break;
      case 7: b |= b << i; for (std::size_t k = 0; k < N; ++k) n[k] = m[k] || (k >= i && m[k - i]); std::memcpy(m, n, N); break;
      case 8: b ^= b >> i; for (std::size_t k = 0; k < N; ++k) n[k] = m[k] != (k + i < N && m[k + i]); std::memcpy(m, n, N); break;
    }
    std::size_t cnt = 0, at = 0;
    for (std::size_t k = 0; k != N; ++k) {
      vp_assert(b.test(k) == m[k], "bit");
      cnt += m[k];
    }
    vp_assert(b.count() == cnt && b.any() == (cnt != 0) && b.none() == (cnt == 0), "count");
    b.for_each_set_bit([&](std::size_t k) {
      while (at < N && !m[at]) ++at;
      vp_assert(k == at, "set bits in order");
      ++at;
    });
    while (at < N && !m[at]) ++at;
    vp_assert(at == N, "all set bits visited");
    bitset<N> c{b.to_string()};
    vp_assert(c == b && !(c < b) && !(b < c), "text round trip");
  }
}
NATIVE(history_5) { history<5>(); }
NATIVE(history_64) { history<64>(); }
NATIVE(history_70) { history<70>(); }
NATIVE(history_129) { history<129>(); }
NATIVE(history_300) { history<300>(); }
