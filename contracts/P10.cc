// P10: equal values have equal hashes, in every representation that may be mixed for lookup; hashing and
// comparison of aggregates follow the members in order.  (Reflection itself: P10r*.cc.)
#include "vp.h"
#include "arb.h"

#include <array>
#include <string>

#include "cista/containers.h"
#include "cista/equal_to.h"
#include "cista/hashing.h"
#include "cista/reflection/comparable.h"
#include "cista/strong.h"

using namespace cista;

namespace {
template <typename T>
hash_t H(T const& x, hash_t seed = BASE_HASH) {
  return hashing<T>{}(x, seed);
}

// ---- texts of a fixed length and arbitrary content, in every representation
template <std::size_t N>
void same_text() {
  char t[N + 1];
  for (auto i = 0u; i != N; ++i) {
    t[i] = vp::any<char>("c");
    vp_assume(t[i] != 0);
  }
  t[N] = 0;
  char const(&lit)[N + 1] = t;
  auto const v = std::string_view{t, N};
  auto const seed = vp::any<std::uint64_t>("seed");
  auto const h = hash(v, seed);
  vp_assert(H(v, seed) == h, "std::string_view");
  {
    raw::string s{v, raw::string::owning};
    offset::string o{v, offset::string::owning};
    vp_assert(H(s, seed) == h && H(o, seed) == h, "string");
    vp_assert(equal_to<raw::string>{}(s, v) && equal_to<raw::string>{}(s, o) && equal_to<std::string_view>{}(v, o), "equal");
  }
  raw::string_view const rv{v};
  offset::string_view const ov{v};
  vp_assert(H(rv, seed) == h && H(ov, seed) == h, "string_view");
  vp_assert(equal_to<raw::string_view>{}(rv, v) && equal_to<raw::string_view>{}(rv, static_cast<char const*>(t)), "equal");
  {
    raw::cstring c{v};
    vp_assert(H(c, seed) == h, "cstring");
    vp_assert(equal_to<raw::string_view>{}(rv, c) && equal_to<raw::cstring>{}(c, rv), "equal");
  }
  vp_assert(hashing<char[N + 1]>{}(lit, seed) == h && hashing<char const[N + 1]>{}(lit, seed) == h, "literal");
  vp_assert(hashing<char const*>{}(t, seed) == h, "C string");
  vp_assert(hashing<raw::string>::is_hash_equivalent<raw::string, char[N + 1]>() &&
                hashing<raw::string>::is_hash_equivalent<raw::string, std::string_view>() &&
                hashing<raw::string>::is_hash_equivalent<raw::string, raw::cstring>(),
            "may be mixed");
}
// different texts of the same length are not equal
template <std::size_t N>
void different_text() {
  char t[N], u[N];
  auto eq = true;
  for (auto i = 0u; i != N; ++i) {
    t[i] = vp::any<char>("c");
    u[i] = vp::any<char>("d");
    vp_assume(t[i] != 0 && u[i] != 0);
    eq = eq & (t[i] == u[i]);
  }
  raw::string const s{std::string_view{t, N}, raw::string::non_owning}, r{std::string_view{u, N}, raw::string::non_owning};
  vp_assert(equal_to<raw::string>{}(s, r) == eq && equal_to<raw::string>{}(s, std::string_view{u, N}) == eq, "equality of texts");
  vp_assert(!eq || H(s) == H(r), "equal texts have equal hashes");
}

// ---- aggregates
struct inner {
  CISTA_COMPARABLE()
  std::uint8_t a_;
  std::int32_t b_;
};
struct outer {
  std::uint8_t x_;
  inner y_;
  std::uint64_t z_;
  std::array<std::uint16_t, 2> w_;
};
struct five {
  CISTA_FRIEND_COMPARABLE(five)
  std::uint8_t a_;
  std::int64_t b_;
  std::uint16_t c_;
  std::int8_t d_;
  std::uint32_t e_;
};
struct own {
  auto cista_members() { return std::tie(b_, a_); }
  std::uint32_t a_, b_;
};
enum class color : std::uint8_t { red, green };
using idx_t = strong<std::uint32_t, struct idx_tag>;

// an object of T in memory with arbitrary padding
template <typename T>
T* dirty(char const* n) {
  auto* const m = vp::any_array<std::uint64_t>((sizeof(T) + 7) / 8, n);
  return reinterpret_cast<T*>(m);
}
}  // namespace

OBLIGATION(text_0) { same_text<0>(); }
OBLIGATION(text_1) { same_text<1>(); }
OBLIGATION(text_2) { same_text<2>(); }
OBLIGATION(text_7) { same_text<7>(); }
OBLIGATION(text_14) { same_text<14>(); }
OBLIGATION(text_15) { same_text<15>(); }
OBLIGATION(text_16) { same_text<16>(); }
OBLIGATION(text_17) { same_text<17>(); }
OBLIGATION(text_40) { same_text<40>(); }
OBLIGATION(different_1) { different_text<1>(); }

OBLIGATION(different_15) { different_text<15>(); }
OBLIGATION(different_16) { different_text<16>(); }

OBLIGATION(hash_step) {
  // FNV-1a: one more character continues the hash
  auto const seed = vp::any<std::uint64_t>("seed");
  auto const c = vp::any<char>("c");
  auto const x = vp::any<std::uint64_t>("x");
  vp_assert(hash_combine(seed, x) == (seed ^ x) * 1099511628211ULL, "FNV-1a step");
  vp_assert(hash(std::string_view{&c, 1}, seed) == hash_combine(seed, static_cast<std::uint8_t>(c)), "one character");
  char const t[3] = {vp::any<char>("a"), vp::any<char>("b"), c};
  vp_assert(hash(std::string_view{t, 3}, seed) == hash(std::string_view{t + 2, 1}, hash(std::string_view{t, 2}, seed)), "continued");
  vp_assert(hash(std::string_view{}, seed) == seed, "no character");
}
OBLIGATION(hash_scalars) {
  auto const seed = vp::any<std::uint64_t>("seed");
  auto const x = vp::any<std::uint64_t>("x");
  vp_assert(H(static_cast<std::uint8_t>(x), seed) == hash_combine(seed, static_cast<std::uint8_t>(x)), "u8");
  vp_assert(H(static_cast<std::int16_t>(x), seed) == hash_combine(seed, static_cast<std::int16_t>(x)), "i16");
  vp_assert(H(static_cast<std::int32_t>(x), seed) == hash_combine(seed, static_cast<std::int32_t>(x)), "i32");
  vp_assert(H(x, seed) == hash_combine(seed, x), "u64");
  vp_assert(H((x & 1) != 0, seed) == hash_combine(seed, x & 1), "bool");
  vp_assert(H(static_cast<color>(x & 1), seed) == hash_combine(seed, x & 1), "enum");
  vp_assert(H(idx_t{static_cast<std::uint32_t>(x)}, seed) == H(static_cast<std::uint32_t>(x), seed), "strong type");
}
OBLIGATION(hash_pointers) {
  // a raw pointer and the offset pointer to the same object are the same key
  std::uint64_t obj[2];
  raw::ptr<std::uint64_t> const a = &obj[1];
  offset::ptr<std::uint64_t> const b{&obj[1]};
  auto const seed = vp::any<std::uint64_t>("seed");
  vp_assert(H(a, seed) == H(b, seed), "same object, same hash");
  offset::ptr<std::uint64_t> const c{b};
  vp_assert(H(b, seed) == H(c, seed) && b == c, "wherever the offset pointer lies");
}
OBLIGATION(hash_aggregate) {
  auto* const p = dirty<outer>("p");
  auto* const q = dirty<outer>("q");
  auto const seed = vp::any<std::uint64_t>("seed");
  // members in declaration order, nothing else
  auto h = hash_combine(seed, p->x_);
  h = hash_combine(h, p->y_.a_);
  h = hash_combine(h, p->y_.b_);
  h = hash_combine(h, p->z_);
  h = hash_combine(h, p->w_[0]);
  h = hash_combine(h, p->w_[1]);
  vp_assert(H(*p, seed) == h, "chained over the members in order");
  q->x_ = p->x_;
  q->y_.a_ = p->y_.a_;
  q->y_.b_ = p->y_.b_;
  q->z_ = p->z_;
  q->w_ = p->w_;
  vp_assert(H(*q, seed) == h, "padding does not matter");
  vp_assert(equal_to<outer>{}(*p, *q), "equal members");
}
OBLIGATION(hash_products) {
  auto const a = vp::any<std::uint8_t>("a");
  auto const b = vp::any<std::int32_t>("b");
  auto const c = vp::any<std::uint64_t>("c");
  auto const h2 = hash_combine(hash_combine(BASE_HASH, a), b);
  auto const h3 = hash_combine(h2, c);
  vp_assert(H(inner{a, b}) == h2, "aggregate");
  vp_assert(H(std::pair<std::uint8_t, std::int32_t>{a, b}) == h2, "std::pair");
  vp_assert(H(cista::pair<std::uint8_t, std::int32_t>{a, b}) == h2, "pair");
  vp_assert(H(std::tuple<std::uint8_t, std::int32_t, std::uint64_t>{a, b, c}) == h3, "std::tuple");
  vp_assert(build_hash(a, b, c) == h3, "build_hash");
  vp_assert(H(own{a, static_cast<std::uint32_t>(b)}) == hash_combine(hash_combine(BASE_HASH, static_cast<std::uint32_t>(b)), std::uint32_t{a}),
            "the members cista_members names, in its order");
  vp_assert(H(std::optional<std::uint64_t>{c}) == H(std::optional<std::uint64_t>{c}), "std::optional");
  std::array<std::uint64_t, 3> const arr{c, a, c};
  vp_assert(H(arr) == hash_combine(hash_combine(hash_combine(BASE_HASH, c), std::uint64_t{a}), c), "array");
}
namespace {
template <std::size_t N>
void same_vector() {
  using V = raw::vector<std::uint32_t>;
  using O = offset::vector<std::uint32_t>;
  vp::raw<V> a;
  vp::raw<O> b;
  // any capacity, any content behind the size
  auto const cap = vp::any_size<std::uint32_t>("capacity", N, 1u << 20, 20), cap2 = vp::any_size<std::uint32_t>("capacity2", N, 1u << 20, 20);
  new (&a.v) V{};
  new (&b.v) O{};
  auto* const d = vp::any_array<std::uint32_t>(cap, "d");
  auto* const e = vp::any_array<std::uint32_t>(cap2, "e");
  a.v.el_ = d;
  a.v.allocated_size_ = cap;
  a.v.used_size_ = N;
  b.v.el_ = e;
  b.v.allocated_size_ = cap2;
  b.v.used_size_ = N;
  auto h = BASE_HASH;
  auto eq = true;
  for (auto i = 0u; i != N; ++i) {
    eq = eq & (d[i] == e[i]);
    h = hash_combine(h, d[i]);
  }
  vp_assert(H(a.v) == h, "the elements, in order");
  vp_assert(!eq || H(b.v) == h, "equal elements, equal hash");
  vp_assert(equal_to<V>{}(a.v, b.v) == eq, "equality of the elements");
  std::array<std::uint32_t, N + 1> x{};
  vp_assert(!equal_to<V>{}(a.v, x), "a different number of elements");
}
}  // namespace
OBLIGATION(vector_0) { same_vector<0>(); }
OBLIGATION(vector_1) { same_vector<1>(); }
OBLIGATION(vector_3) { same_vector<3>(); }
OBLIGATION(variant_hash) {
  using V = variant<std::uint32_t, std::uint64_t>;
  auto const x = vp::any<std::uint64_t>("x"), y = vp::any<std::uint64_t>("y");
  auto const p = vp::any<bool>("p"), q = vp::any<bool>("q");
  V a, b;
  if (p) {
    a = static_cast<std::uint32_t>(x);
  } else {
    a = x;
  }
  if (q) {
    b = static_cast<std::uint32_t>(y);
  } else {
    b = y;
  }
  vp_assert(!(a == b) || H(a) == H(b), "equal variants have equal hashes");
  V const none, none2;
  vp_assert(none == none2 && H(none) == H(none2), "no value");
}
namespace {
// results of every operation on bit sets: equal ones have equal hashes
template <std::size_t N>
bitset<N> bits(char const* n) {
  bitset<N> s;
  for (auto& b : s.blocks_) {
    b = vp::any<std::uint64_t>(n);
  }
  if constexpr (N % 64 != 0) {
    vp_assume((s.blocks_[s.num_blocks - 1] >> (N % 64)) == 0);
  }
  return s;
}
template <std::size_t N>
void bitset_hash(unsigned op) {
  auto a = bits<N>("a");
  auto const b = bits<N>("b"), c = bits<N>("c");
  auto const i = vp::any<std::size_t>("i");
  if (op == 0) {
    a = ~a;
  } else if (op == 1) {
    // every distance below N, and the others together
    if (N > 64 && vp_fork(i < N)) {
      a <<= vp::enumerate<N>(i);
    } else {
      a <<= i;
    }
  } else if (op == 2) {
    if (N > 64 && vp_fork(i < N)) {
      a >>= vp::enumerate<N>(i);
    } else {
      a >>= i;
    }
  } else if (op == 3) {
    a ^= b;
    a |= c;
  } else if (op == 4) {
    vp_assume(i < N);
    if (N > 64) {
      a.set(vp::enumerate<N>(i), vp::any<bool>("v"));
    } else {
      a.set(i, vp::any<bool>("v"));
    }
  } else {
    a = bitset<N>::max();
  }
  // with no unused bit set, equal bit sets have equal blocks, hence (bitset_equal_*) equal hashes
  if constexpr (N % 64 != 0) {
    vp_assert((a.blocks_[a.num_blocks - 1] >> (N % 64)) == 0, "no unused bit is set");
  }
#ifdef VP_NATIVE
  vp_assert(!(a == c) || (H(a) == H(c) && equal_to<bitset<N>>{}(a, c)), "equal bit sets have equal hashes");
#endif
}
template <std::size_t N>
void bitset_equal() {
  auto const a = bits<N>("a"), c = bits<N>("c");
  auto same = true;
  for (auto i = 0u; i != a.num_blocks; ++i) {
    same = same & (a.blocks_[i] == c.blocks_[i]);
  }
  vp_assert((a == c) == same && equal_to<bitset<N>>{}(a, c) == same, "equal exactly when the blocks are");
  if (vp_fork(same)) {
    vp_assert(H(a) == H(c), "equal bit sets have equal hashes");
  }
}
}  // namespace
OBLIGATION(bitset_equal_10) { bitset_equal<10>(); }
OBLIGATION(bitset_equal_64) { bitset_equal<64>(); }
OBLIGATION(bitset_equal_70) { bitset_equal<70>(); }
OBLIGATION(bitset_not_10) { bitset_hash<10>(0); }
OBLIGATION(bitset_not_70) { bitset_hash<70>(0); }
OBLIGATION(bitset_left) { bitset_hash<10>(1); }
OBLIGATION(bitset_left_70) { bitset_hash<70>(1); }
OBLIGATION(bitset_right) { bitset_hash<10>(2); }
OBLIGATION(bitset_right_70) { bitset_hash<70>(2); }
OBLIGATION(bitset_ops) { bitset_hash<10>(3); }
OBLIGATION(bitset_ops_70) { bitset_hash<70>(3); }
OBLIGATION(bitset_set) { bitset_hash<10>(4); }
OBLIGATION(bitset_set_70) { bitset_hash<70>(4); }
OBLIGATION(bitset_max) { bitset_hash<10>(5); }
OBLIGATION(bitset_max_70) { bitset_hash<70>(5); }

// ---- comparison of aggregates
namespace {
template <typename T>
void compared(T const& s, T const& t, bool eq, bool lt) {
  vp_assert((s == t) == eq && (s != t) == !eq, "equal exactly when all members are");
  vp_assert((s < t) == lt && (s > t) == (!lt && !eq), "lexicographic");
  vp_assert((s <= t) == (lt || eq) && (s >= t) == !lt, "weak lexicographic");
}
}  // namespace
OBLIGATION(comparable) {
  auto* const p = dirty<inner>("p");
  auto* const q = dirty<inner>("q");
  auto const eq = p->a_ == q->a_ && p->b_ == q->b_;
  compared(*p, *q, eq, p->a_ < q->a_ || (p->a_ == q->a_ && p->b_ < q->b_));
  vp_assert(!eq || H(*p) == H(*q), "equal values have equal hashes");
  vp_assert(equal_to<inner>{}(*p, *q) == eq, "equal_to");
}
OBLIGATION(friend_comparable) {
  auto* const p = dirty<five>("p");
  auto* const q = dirty<five>("q");
  auto const eq = p->a_ == q->a_ && p->b_ == q->b_ && p->c_ == q->c_ && p->d_ == q->d_ && p->e_ == q->e_;
  auto const lt = p->a_ != q->a_   ? p->a_ < q->a_
                  : p->b_ != q->b_ ? p->b_ < q->b_
                  : p->c_ != q->c_ ? p->c_ < q->c_
                  : p->d_ != q->d_ ? p->d_ < q->d_
                                   : p->e_ < q->e_;
  compared(*p, *q, eq, lt);
  vp_assert(!eq || H(*p) == H(*q), "equal values have equal hashes");
  vp_assert(equal_to<five>{}(*p, *q) == eq, "equal_to");
}
OBLIGATION(equal_to_outer) {
  auto* const p = dirty<outer>("p");
  auto* const q = dirty<outer>("q");
  auto const eq = p->x_ == q->x_ && p->y_.a_ == q->y_.a_ && p->y_.b_ == q->y_.b_ && p->z_ == q->z_ && p->w_[0] == q->w_[0] &&
                  p->w_[1] == q->w_[1];
  vp_assert(equal_to<outer>{}(*p, *q) == eq, "equal exactly when all members are");
}
OBLIGATION(pair_equality) {
  using P = cista::pair<std::uint64_t, std::uint8_t>;
  auto* const p = dirty<P>("p");
  auto* const q = dirty<P>("q");
  auto const eq = p->first == q->first && p->second == q->second;
  compared(*p, *q, eq, p->first < q->first || (p->first == q->first && p->second < q->second));
  vp_assert(equal_to<P>{}(*p, *q) == eq && (!eq || H(*p) == H(*q)), "equal_to and hash");
}

// ---- natively: longer texts, containers of texts, look-up with mixed keys
NATIVE(texts) {
  auto const n = vp::any_size<std::uint32_t>("n", 0, 300, 300);
  std::string s(n, 'a');
  for (auto& c : s) {
    c = static_cast<char>(vp::any_in<unsigned>("c", 1, 255));
  }
  auto const h = hash(std::string_view{s});
  raw::string a{s};
  offset::string b{s};
  raw::string_view c{s};
  offset::cstring d{s};
  vp_assert(H(s) == h && H(a) == h && H(b) == h && H(c) == h && H(d) == h && H(static_cast<char const*>(s.c_str())) == h, "same hash");
  std::uint64_t fnv = 14695981039346656037ULL;
  for (auto const ch : s) {
    fnv = (fnv ^ static_cast<unsigned char>(ch)) * 1099511628211ULL;
  }
  vp_assert(h == fnv, "FNV-1a");
  raw::hash_map<raw::string, int> m;
  m[a] = 1;
  vp_assert(m.find(std::string_view{s}) != m.end() && m.find(b) != m.end() && m.find(c) != m.end() && m.find(s) != m.end() &&
                m.find(static_cast<char const*>(s.c_str())) != m.end() && m.find(d) != m.end(),
            "found with every representation");
  s += 'x';
  vp_assert(m.find(s) == m.end(), "another text is not found");
}
NATIVE(bitvecs) {
  raw::bitvec a, b;
  auto const n = vp::any_in<std::uint32_t>("n", 0, 150), m = vp::any_in<std::uint32_t>("m", 0, 150);
  a.resize(m);
  for (auto i = 0u; i < m; ++i) {
    a.set(i, vp::any<bool>("bit"));
  }
  switch (vp::any_in<unsigned>("op", 0, 4)) {
    case 0: a = ~a; break;
    case 1: a <<= vp::any_in<unsigned>("by", 0, 160); break;
    case 2: a >>= vp::any_in<unsigned>("by", 0, 160); break;
    case 3: a = raw::bitvec::max(m); break;
    default: break;
  }
  a.resize(n);
  b.resize(n);
  for (auto i = 0u; i != n; ++i) {
    b.set(i, a.test(i));
  }
  vp_assert(a == b && H(a) == H(b) && equal_to<raw::bitvec>{}(a, b), "equal bit vectors have equal hashes");
  b.resize(n + 1);
  vp_assert(!equal_to<raw::bitvec>{}(a, b), "different sizes are different");
}
NATIVE(containers) {
  raw::vector<raw::string> a;
  offset::vector<offset::string> b;
  auto h = BASE_HASH;
  auto const n = vp::any_in<unsigned>("n", 0, 6);
  b.reserve(vp::any_in<unsigned>("reserve", 0, 20));
  raw::vecvec<std::uint32_t, std::uint32_t> vv, ww;
  for (auto i = 0u; i != n; ++i) {
    std::string s(vp::any_in<unsigned>("len", 0, 20), 'b');
    a.emplace_back(s);
    b.emplace_back(s);
    h = hash(s, h);
    std::vector<std::uint32_t> x(s.size(), 7u);
    vv.emplace_back(x);
    ww.emplace_back(x);
  }
  vp_assert(H(a) == h && H(b) == h, "vector of strings");
  vp_assert(equal_to<raw::vector<raw::string>>{}(a, b), "equal");
  vp_assert(H(vv) == H(ww), "vector of vectors");
  if (n != 0) {
    a[vp::any_in<unsigned>("i", 0, n - 1)] = "other";
    vp_assert(!equal_to<raw::vector<raw::string>>{}(a, b), "not equal");
  }
}
