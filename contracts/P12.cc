// P12: a dynamic bit vector behaves as a sequence of bits of its length.
// Abstract view: bit(v, i) for i < size, read from the block array.  Arbitrary objects: any size,
// any blocks - the bits of the last block at and beyond the size are arbitrary (operator~, max and
// the shifts leave them set).
#include "vp.h"
#include "arb.h"

#include "cista/containers/bitvec.h"

using namespace cista;

namespace {
constexpr std::uint32_t MAXBITS = 1u << 30;
using K32 = strong<std::uint32_t, struct k32_>;
using keyed = basic_bitvec<raw::vector<std::uint64_t>, std::uint32_t>;

template <typename B>
bool bit(B const& b, std::uint32_t i) {
  using T = typename B::block_t;
  constexpr std::uint32_t W = sizeof(T) * 8;
  return i < b.size_ && ((b.blocks_.begin()[i / W] >> (i % W)) & 1U) != 0U;
}
template <typename B>
constexpr std::uint32_t blocks_for(std::uint32_t n) {
  constexpr std::uint32_t W = sizeof(typename B::block_t) * 8;
  return n / W + (n % W != 0 ? 1 : 0);
}
// any bit vector of n bits
template <typename B>
void arb_bits(vp::raw<B>& r, std::uint32_t n) {
  using T = typename B::block_t;
  new (&r.v) B{};
  auto const nb = blocks_for<B>(n);
  r.v.size_ = n;
  if (nb != 0) {
    r.v.blocks_.el_ = static_cast<T*>(vp_any_mem(static_cast<std::uint64_t>(nb) * sizeof(T), sizeof(T), 16, "blocks"));
    r.v.blocks_.used_size_ = r.v.blocks_.allocated_size_ = nb;
    r.v.blocks_.self_allocated_ = true;
  }
}
inline std::uint32_t len(char const* n) { return vp::any_size<std::uint32_t>(n, 0, MAXBITS, 300); }
inline std::uint32_t pos(char const* n) {
  auto const i = vp::any_size<std::uint32_t>(n, 0, MAXBITS, 320);
  vp_index(i);
  vp_index(i / 64);
  vp_index(i % 64);
  vp_index(i / 32);
  return i;
}
template <typename B>
void shape(B const& b, std::uint32_t n) {
  using T = typename B::block_t;
  vp_assert(b.size() == n && b.empty() == (n == 0), "size");
  vp_assert(b.blocks_.size() == blocks_for<B>(n), "as many blocks as the size needs");
  vp_assert(n == 0 || vp_readable(b.blocks_.begin(), static_cast<std::uint64_t>(blocks_for<B>(n)) * sizeof(T)), "blocks are there");
}

template <typename B>
void point() {
  auto const n = len("n");
  vp::raw<B> r;
  arb_bits(r, n);
  auto& b = r.v;
  auto const i = pos("i"), k = pos("k");
  auto const o = bit(b, k);
  vp_assert(b.test(k) == o, "test, also beyond the size");
  vp_assert(b[k] == o, "operator[]");
  vp_assume(i < n);
  auto const v = vp::any<bool>("v");
  auto const how = vp::any_in<unsigned>("how", 0, 3);
  if (how == 0) {
    b.set(i, v);
  } else if (how == 1) {
    b.template set<false>(i, v);
  } else if (how == 2) {
    b.template set<true>(i, v);
  } else {
    vp_assume(v);
    b.set(i);
  }
  vp_assert(b.test(k) == (k == i ? v : o), "set changes exactly bit i");
  shape(b, n);
}
template <typename B>
void bulk() {
  auto const n = len("n");
  vp::raw<B> x, y;
  arb_bits(x, n);
  arb_bits(y, n);
  auto const k = pos("k");
  auto const p = bit(x.v, k), q = bit(y.v, k);
  auto const how = vp::any_in<unsigned>("how", 0, 2);
  B* r;
  if (how == 0) {
    r = &(x.v &= y.v);
  } else if (how == 1) {
    r = &(x.v |= y.v);
  } else {
    r = &(x.v ^= y.v);
  }
  vp_assert(r == &x.v, "returns the target");
  vp_assert(x.v.test(k) == (how == 0 ? p && q : how == 1 ? p || q : p != q), "and / or / xor of the bits");
  vp_assert(y.v.test(k) == q, "the other operand is unchanged");
  shape(x.v, n);
  shape(y.v, n);
}
template <typename B>
void bulk_value() {
  auto const n = len("n");
  vp::raw<B> x, y;
  arb_bits(x, n);
  arb_bits(y, n);
  auto const k = pos("k");
  auto const p = bit(x.v, k), q = bit(y.v, k);
  auto const how = vp::any_in<unsigned>("how", 0, 3);
  if (how == 0) {
    auto const z = x.v & y.v;
    vp_assert(z.test(k) == (p && q), "&");
    shape(z, n);
  } else if (how == 1) {
    auto const z = x.v | y.v;
    vp_assert(z.test(k) == (p || q), "|");
    shape(z, n);
  } else if (how == 2) {
    auto const z = x.v ^ y.v;
    vp_assert(z.test(k) == (p != q), "^");
    shape(z, n);
  } else {
    auto const z = ~x.v;
    vp_assert(z.test(k) == (k < n && !p), "~");
    shape(z, n);
  }
  vp_assert(x.v.test(k) == p && y.v.test(k) == q, "operands unchanged");
}
template <typename B>
void fill() {
  auto const n = len("n");
  vp::raw<B> x;
  arb_bits(x, n);
  auto const k = pos("k");
  auto const how = vp::any_in<unsigned>("how", 0, 2);
  if (how == 0) {
    x.v.zero_out();
  } else if (how == 1) {
    x.v.one_out();
  } else {
    x.v.reset();
  }
  vp_assert(x.v.test(k) == (how == 1 && k < n), "every bit");
  shape(x.v, n);
}
template <typename B>
void make() {
  auto const n = len("n");
  auto const k = pos("k");
  B d;
  shape(d, 0);
  vp_assert(!d.test(k) && d.none() && !d.any() && d.count() == 0, "default is the empty sequence");
  B s(n);
  shape(s, n);
  vp_assert(!s.test(k), "all bits unset");
  auto const m = B::max(n);
  shape(m, n);
  vp_assert(m.test(k) == (k < n), "all bits set");
}
template <typename B>
void resize() {
  auto const n = len("n"), m = len("m");
  vp::raw<B> x;
  arb_bits(x, n);
  auto const k = pos("k");
  auto const o = bit(x.v, k);
  x.v.resize(m);
  shape(x.v, m);
  vp_assert(x.v.test(k) == (k < m && o), "bits below both sizes stay, new bits are unset");
}
template <typename B, bool Right>
void shift() {
  auto const n = len("n");
  vp::raw<B> x;
  arb_bits(x, n);
  auto const k = pos("k");
  auto const s = vp::any_size<std::uint64_t>("shift", 0, ~std::uint64_t{0}, 330);
  vp_index(s / (sizeof(typename B::block_t) * 8));
  bool want;
  if (Right) {
    vp_index(k + s);
    want = s < n && k < n && bit(x.v, static_cast<std::uint32_t>(k + s));
  } else {
    want = k < n && s <= k && bit(x.v, static_cast<std::uint32_t>(k - s));
  }
  auto& r = Right ? (x.v >>= s) : (x.v <<= s);
  vp_assert(&r == &x.v, "returns the target");
  shape(x.v, n);
  vp_assert(x.v.test(k) == want, "bits move by the distance, unset bits move in");
}
template <typename B, bool Right>
void shift_value() {
  auto const n = vp::any_size<std::uint32_t>("n", 0, 130);
  vp::raw<B> x;
  arb_bits(x, n);
  auto const k = pos("k");
  auto const o = bit(x.v, k);
  auto const s = vp::any_size<std::uint64_t>("shift", 0, ~std::uint64_t{0}, 330);
  auto const want = Right ? s < n && k < n && bit(x.v, static_cast<std::uint32_t>(k + s))
                          : k < n && s <= k && bit(x.v, static_cast<std::uint32_t>(k - s));
  auto const z = Right ? x.v >> s : x.v << s;
  shape(z, n);
  vp_assert(z.test(k) == want, "bits move by the distance");
  vp_assert(x.v.test(k) == o, "operand unchanged");
}
template <typename B>
void any_none() {
  auto const n = len("n");
  vp::raw<B> x;
  arb_bits(x, n);
  auto const k = pos("k");
  auto const some = x.v.any();
  vp_assert(x.v.none() == !some, "none is not any");
  vp_assert(some || !bit(x.v, k), "no bit set when any is false");
}
template <typename B>
void any_needs_a_bit() {
  // all bits below the size unset, those beyond arbitrary
  using T = typename B::block_t;
  constexpr std::uint32_t W = sizeof(T) * 8;
  auto const n = len("n");
  vp::raw<B> x;
  arb_bits(x, n);
  auto const nb = blocks_for<B>(n);
#ifdef VP_NATIVE
  for (std::uint32_t i = 0; i != nb; ++i) {
    x.v.blocks_[i] = (n % W != 0 && i == nb - 1) ? x.v.blocks_[i] >> (n % W) << (n % W) : 0;
  }
#else
  if (nb != 0) {
    vp::each(static_cast<T*>(x.v.blocks_.el_), [n, nb](std::uint64_t k, std::uint64_t c) {
      return (n % W != 0 && k == nb - 1) ? (c & ~(~T{0} << (n % W))) == 0 : c == 0;
    });
  }
#endif
  vp_assert(!x.v.any() && x.v.none(), "any needs a set bit below the size");
  auto const i = pos("i");
  vp_assert(!x.v.next_set_bit(i).has_value(), "no next set bit either");
}
template <typename B>
void count() {
  using T = typename B::block_t;
  constexpr std::uint32_t W = sizeof(T) * 8;
  auto const n = len("n");
  vp::raw<B> x;
  arb_bits(x, n);
  std::size_t sum = 0;
  auto const nb = blocks_for<B>(n);
  if (nb != 0) {
    for (std::uint32_t i = 0; i != nb - 1; ++i) {
      sum += popcount(x.v.blocks_.begin()[i]);
    }
    sum += popcount(static_cast<T>(n % W == 0 ? x.v.blocks_.begin()[nb - 1]
                                              : x.v.blocks_.begin()[nb - 1] & ((T{1} << (n % W)) - 1)));
  }
  vp_assert(x.v.count() == sum, "sum of the set bits below the size");
}
template <typename B>
void next_set_bit() {
  auto const n = len("n");
  vp::raw<B> x;
  arb_bits(x, n);
  auto const i = pos("i"), k = pos("k");
  auto const r = x.v.next_set_bit(i);
  if (r.has_value()) {
    vp_assert(*r >= i && *r < n, "from the start and below the size");
    vp_assert(bit(x.v, *r), "a set bit");
    vp_assert(!(k >= i && k < *r) || !bit(x.v, k), "the first one");
  } else {
    vp_assert(k < i || !bit(x.v, k), "there is none");
  }
}
template <typename B>
void get_next() {
  auto const n = len("n");
  vp::raw<B> x;
  arb_bits(x, n);
  auto const i = pos("i");
  auto const r = x.v.next_set_bit(i);
  std::atomic_size_t next{i};
  auto const g = x.v.get_next(next);
  vp_assert(g.has_value() == r.has_value() && (!r.has_value() || *g == *r), "the next set bit");
  vp_assert(next.load() == (r.has_value() ? *r + 1U : i), "continues behind it");
}
template <typename B>
void each_set_bit() {
  auto const n = len("n");
  vp::raw<B> x;
  arb_bits(x, n);
  auto const k = pos("k");
  std::uint64_t hits = 0, calls = 0, last = 0;
  bool ordered = true, below = true;
  x.v.for_each_set_bit([&](auto const i) {
    hits += i == k ? 1 : 0;
    ordered = ordered && (calls == 0 || last < i);
    below = below && i < n;
    last = i;
    ++calls;
  });
  vp_assert(hits == (bit(x.v, k) ? 1U : 0U), "every set bit exactly once, no other");
  vp_assert(ordered, "in increasing order");
  vp_assert(below, "below the size");
}
template <typename B>
void equality() {
  using T = typename B::block_t;
  constexpr std::uint32_t W = sizeof(T) * 8;
  auto const n = len("n"), m = len("m");
  vp::raw<B> x, y;
  arb_bits(x, n);
  arb_bits(y, m);
  auto const k = pos("k");
  auto const eq = x.v == y.v;
  vp_assert((x.v != y.v) == !eq, "!= is not ==");
  vp_assert(!eq || (n == m && bit(x.v, k) == bit(y.v, k)), "equal ones have the same bits");
  // same bits, different garbage beyond the size
  vp::raw<B> z;
  arb_bits(z, n);
  auto const nb = blocks_for<B>(n);
  if (nb != 0) {
    auto const t = z.v.blocks_.begin()[nb - 1];
    std::memcpy(static_cast<void*>(z.v.blocks_.begin()), static_cast<void const*>(x.v.blocks_.begin()), nb * sizeof(T));
    if (n % W != 0) {
      auto const mask = (T{1} << (n % W)) - 1;
      z.v.blocks_.begin()[nb - 1] = (x.v.blocks_.begin()[nb - 1] & mask) | (t & ~mask);
    }
  }
  vp_assert(x.v == z.v && !(x.v != z.v), "same bits compare equal");
}
template <typename B>
void order() {
  // any two numbers of n bits: equal above block d, different in block d (or equal)
  using T = typename B::block_t;
  constexpr std::uint32_t W = sizeof(T) * 8;
  auto const n = len("n");
  vp::raw<B> x, y;
  arb_bits(x, n);
  arb_bits(y, n);
  auto const nb = blocks_for<B>(n);
  auto const d = vp::any_size<std::uint32_t>("d", 0, MAXBITS, 20);
  vp_index(d);
  vp_index(nb - 2 - d);
  vp_index(std::uint64_t{nb} - 2 - d);
  vp_assume(d < nb || n == 0);
  bool lt = false, eq = true;
  if (nb != 0) {
    auto* p = static_cast<T*>(x.v.blocks_.begin());
    auto* q = static_cast<T*>(y.v.blocks_.begin());
    auto const t = q[nb - 1];
    std::memcpy(static_cast<void*>(q + d + 1), static_cast<void const*>(p + d + 1), (nb - 1 - d) * sizeof(T));
    auto const mask = n % W != 0 ? (T{1} << (n % W)) - 1 : ~T{0};
    auto const a = p[d], b = d == nb - 1 ? t : q[d];
    q[nb - 1] = ((d == nb - 1 ? t : p[nb - 1]) & mask) | (t & ~mask);
    auto const am = d == nb - 1 ? a & mask : a, bm = d == nb - 1 ? b & mask : b;
    vp_assume(am != bm || d == 0);
    lt = am < bm;
    eq = am == bm;
  }
  vp_assert((x.v < y.v) == lt, "<");
  vp_assert((x.v > y.v) == (!lt && !eq), ">");
  vp_assert((x.v <= y.v) == (lt || eq), "<=");
  vp_assert((x.v >= y.v) == !lt, ">=");
  vp_assert((x.v == y.v) == eq, "==");
}
template <typename B>
void text() {
  auto const n = vp::any_size<std::uint32_t>("n", 0, 1u << 20, 150);
  auto* s = vp::any_array<char>(n, "text");
#ifdef VP_NATIVE
  for (std::uint32_t i = 0; i != n; ++i) {
    s[i] = (s[i] & 1) ? '1' : '0';
  }
#else
  if (n != 0) {
    vp::each(s, [](std::uint64_t, std::uint64_t c) { return c == '0' || c == '1'; });
  }
#endif
  auto const k = pos("k");
  auto const m = len("old");
  vp::raw<B> x;
  arb_bits(x, m);
  x.v.set(std::string_view{s, n});
  shape(x.v, n);
  vp_assert(x.v.test(k) == (k < n && s[n - 1 - k] == '1'), "the first character is the highest bit");
}
}  // namespace

#define OPS(tag, ...)                                        \
  OBLIGATION(point_##tag) { point<__VA_ARGS__>(); }          \
  OBLIGATION(bulk_##tag) { bulk<__VA_ARGS__>(); }            \
  OBLIGATION(bulk_value_##tag) { bulk_value<__VA_ARGS__>(); } \
  OBLIGATION(fill_##tag) { fill<__VA_ARGS__>(); }            \
  OBLIGATION(make_##tag) { make<__VA_ARGS__>(); }            \
  OBLIGATION(resize_##tag) { resize<__VA_ARGS__>(); }        \
  OBLIGATION(shift_right_##tag) { shift<__VA_ARGS__, true>(); } \
  OBLIGATION(shift_left_##tag) { shift<__VA_ARGS__, false>(); } \
  OBLIGATION(shift_right_value_##tag) { shift_value<__VA_ARGS__, true>(); } \
  OBLIGATION(shift_left_value_##tag) { shift_value<__VA_ARGS__, false>(); } \
  OBLIGATION(any_none_##tag) { any_none<__VA_ARGS__>(); }    \
  OBLIGATION(any_needs_a_bit_##tag) { any_needs_a_bit<__VA_ARGS__>(); } \
  OBLIGATION(count_##tag) { count<__VA_ARGS__>(); }          \
  OBLIGATION(next_set_bit_##tag) { next_set_bit<__VA_ARGS__>(); } \
  OBLIGATION(get_next_##tag) { get_next<__VA_ARGS__>(); }    \
  OBLIGATION(each_set_bit_##tag) { each_set_bit<__VA_ARGS__>(); } \
  OBLIGATION(equality_##tag) { equality<__VA_ARGS__>(); }    \
  OBLIGATION(order_##tag) { order<__VA_ARGS__>(); }          \
  OBLIGATION(text_##tag) { text<__VA_ARGS__>(); }
OPS(raw_u64, raw::bitvec)
OPS(off_u64, offset::bitvec)
