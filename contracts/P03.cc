// P03: version and integrity headers accept exactly what was written.
// check<T, Mode>() is proved over arbitrary buffers (any length, any bytes): the type hash is an
// arbitrary number for the prover (vpc_type_hash), the checksum is the real hash of the real range.
#include "vp.h"
#include "arb.h"

#include <string>
#include <vector>

#include "cista/serialization.h"
#include "cista/reflection/comparable.h"

using namespace cista;

namespace {
struct flat {
  CISTA_COMPARABLE()
  std::uint64_t a_;
  std::uint32_t b_;
  std::uint16_t c_;
};
constexpr std::uint64_t MAXB = std::uint64_t{1} << 40;
}  // namespace
#ifndef VP_NATIVE
extern "C" std::uint64_t vpc_type_hash() { return vp_uf("type_hash", 0, 0); }
#endif

namespace {
constexpr auto V = mode::WITH_VERSION;
constexpr auto SV = mode::WITH_STATIC_VERSION;
constexpr auto I = mode::WITH_INTEGRITY;
constexpr auto BE = mode::SERIALIZE_BIG_ENDIAN;

inline std::uint64_t stored(std::uint8_t const* p, bool big) {
  std::uint64_t v = 0;
  for (unsigned i = 0; i != 8; ++i) {
    v |= static_cast<std::uint64_t>(p[big ? 7 - i : i]) << (8 * i);
  }
  return v;
}
template <mode M>
constexpr std::uint64_t header_size() {
  return ((M & (V | SV)) != mode::NONE || is_mode_enabled(M, mode::SKIP_VERSION) ? 8 : 0) +
         (is_mode_enabled(M, I) || is_mode_enabled(M, mode::SKIP_INTEGRITY) ? 8 : 0);
}
template <mode M>
constexpr std::uint64_t checksum_at() {
  return (M & (V | SV)) != mode::NONE || is_mode_enabled(M, mode::SKIP_VERSION) ? 8 : 0;
}
template <mode M>
std::uint64_t version() {
  if constexpr ((M & SV) != mode::NONE) {
    return static_type_hash<flat>();
  } else {
    return type_hash<flat>();
  }
}
inline std::uint64_t sum(std::uint8_t const* b, std::uint64_t n) {
  return hash(std::string_view{reinterpret_cast<char const*>(b), n});
}

// an arbitrary buffer; natively the headers are right most of the time
struct input {
  template <mode M>
  void make() {
    n_ = vp::any_size<std::uint64_t>("bytes", 0, MAXB, 60);
    b_ = static_cast<std::uint8_t*>(vp_any_mem(n_, 1, 16, "buffer"));
#ifdef VP_NATIVE
    auto const put = [&](std::uint64_t at, std::uint64_t v) {
      for (unsigned i = 0; i != 8; ++i) {
        b_[at + (is_mode_enabled(M, BE) ? 7 - i : i)] = static_cast<std::uint8_t>(v >> (8 * i));
      }
    };
    if (n_ > header_size<M>()) {
      auto const right = vp::any_in<unsigned>("right", 0, 5);
      if ((M & (V | SV)) != mode::NONE && right != 0) {
        put(0, version<M>() ^ (right == 1 ? std::uint64_t{1} << (b_[0] % 64) : 0));
      }
      if (is_mode_enabled(M, I) && right != 2) {
        put(checksum_at<M>(), sum(b_ + header_size<M>(), n_ - header_size<M>()) ^ (right == 3 ? std::uint64_t{1} << (b_[0] % 64) : 0));
      }
    }
#endif
  }
  std::uint64_t n_;
  std::uint8_t* b_;
};
template <mode M>
void headers() {
  input in;
  in.make<M>();
  static_assert(data_start(M) == static_cast<offset_t>(header_size<M>()) && integrity_start(M) == static_cast<offset_t>(checksum_at<M>()));
  auto ok = in.n_ > header_size<M>();
  if (vp_fork(ok)) {
    if ((M & (V | SV)) != mode::NONE) {
      ok = ok && stored(in.b_, is_mode_enabled(M, BE)) == version<M>();
    }
    if (is_mode_enabled(M, I)) {
      ok = ok && stored(in.b_ + checksum_at<M>(), is_mode_enabled(M, BE)) == sum(in.b_ + header_size<M>(), in.n_ - header_size<M>());
    }
  }
  auto thrown = false;
  try {
    check<flat, M>(in.b_, in.b_ + in.n_);
  } catch (cista_exception const&) {
    thrown = true;
  }
  vp_assert(thrown == !ok, "accepted exactly when the headers match");
}
// the whole way in: the payload is interpreted only behind matching headers
template <mode M>
void whole() {
  input in;
  in.make<M>();
  constexpr auto H = header_size<M>();
  auto ok = in.n_ > H && in.n_ >= H + sizeof(flat);
  auto const be = is_mode_enabled(M, BE);
  std::uint8_t old[sizeof(flat)] = {};
  if (vp_fork(ok)) {
    std::memcpy(old, in.b_ + H, sizeof(flat));
    if ((M & (V | SV)) != mode::NONE) {
      ok = ok && stored(in.b_, be) == version<M>();
    }
    if (is_mode_enabled(M, I)) {
      ok = ok && stored(in.b_ + checksum_at<M>(), be) == sum(in.b_ + H, in.n_ - H);
    }
  }
  auto const i = vp::index("i");
  auto const inside = vp_fork(i < in.n_);
  auto const x = inside ? in.b_[i] : 0;
  auto thrown = false;
  flat* r = nullptr;
  try {
    r = deserialize<flat, M>(in.b_, in.b_ + in.n_);
  } catch (cista_exception const&) {
    thrown = true;
  }
  vp_assert(thrown == !ok, "rejected exactly when a header is wrong or the buffer too short");
  if (thrown) {
    vp_assert(!inside || in.b_[i] == x || in.n_ < H + sizeof(flat), "a rejected buffer is left alone");
    return;
  }
  vp_assert(reinterpret_cast<std::uint8_t*>(r) == in.b_ + H, "the payload starts directly behind the headers");
  flat want;
  std::memcpy(&want, old, sizeof(want));
  if (be) {
    want.a_ = endian_swap(want.a_);
    want.b_ = endian_swap(want.b_);
    want.c_ = endian_swap(want.c_);
  }
  vp_assert(r->a_ == want.a_ && r->b_ == want.b_ && r->c_ == want.c_, "the payload");
  if (inside && (i < H || i >= H + sizeof(flat))) {
    vp_assert(in.b_[i] == x, "nothing else is changed");
  }
}
// what is written
template <mode M>
void written() {
  flat v;
  v.a_ = vp::any<std::uint64_t>("a");
  v.b_ = vp::any<std::uint32_t>("b");
  v.c_ = vp::any<std::uint16_t>("c");
  auto const w = v;
  buf<byte_buf> b;
  serialize<M>(b, v);
  vp_assert(v == w, "serialising leaves the value alone");
  constexpr auto H = header_size<M>();
  auto const be = is_mode_enabled(M, BE);
  vp_assert(b.size() == H + sizeof(flat), "headers and payload");
  if ((M & (V | SV)) != mode::NONE) {
    vp_assert(stored(b.base(), be) == version<M>(), "the type hash comes first");
  }
  if (is_mode_enabled(M, I)) {
    vp_assert(stored(b.base() + checksum_at<M>(), be) == sum(b.base() + H, sizeof(flat)), "the checksum of the payload");
  }
  auto const* r = deserialize<flat, M>(b.buf_);
  vp_assert(*r == w, "what was written is accepted and equal");
}
}  // namespace

#define MODES(F)                                                         \
  OBLIGATION(F##_plain) { F<mode::NONE>(); }                             \
  OBLIGATION(F##_version) { F<V>(); }                                    \
  OBLIGATION(F##_static) { F<SV>(); }                                    \
  OBLIGATION(F##_integrity) { F<I>(); }                                  \
  OBLIGATION(F##_both) { F<V | I>(); }                                   \
  OBLIGATION(F##_static_both) { F<SV | I>(); }                           \
  OBLIGATION(F##_big) { F<BE>(); }                                       \
  OBLIGATION(F##_big_both) { F<BE | V | I>(); }                          \
  OBLIGATION(F##_unchecked) { F<mode::UNCHECKED | V | I>(); }            \
  OBLIGATION(F##_deep) { F<mode::DEEP_CHECK | SV | I>(); }
MODES(headers)
MODES(written)
OBLIGATION(whole_plain) { whole<mode::NONE>(); }
OBLIGATION(whole_version) { whole<V>(); }
OBLIGATION(whole_static) { whole<SV>(); }
OBLIGATION(whole_integrity) { whole<I>(); }
OBLIGATION(whole_both) { whole<V | I>(); }
OBLIGATION(whole_big_both) { whole<BE | V | I>(); }
OBLIGATION(whole_big_static) { whole<BE | SV>(); }
OBLIGATION(headers_skip_version) { headers<mode::SKIP_VERSION | I>(); }
OBLIGATION(headers_skip_integrity) { headers<V | mode::SKIP_INTEGRITY>(); }
OBLIGATION(headers_skip_both) { headers<mode::SKIP_VERSION | mode::SKIP_INTEGRITY>(); }
OBLIGATION(whole_skip_integrity) { whole<V | mode::SKIP_INTEGRITY>(); }
OBLIGATION(whole_skip_both) { whole<mode::SKIP_VERSION | mode::SKIP_INTEGRITY>(); }

// ---------------------------------------------------------- type hashes of a fixed catalogue
// (the hashes have no inputs: running them decides the catalogue; no claim beyond it)
namespace {
namespace o = cista::offset;
namespace r = cista::raw;
struct s1 { std::uint32_t a; std::uint64_t b; };
struct s2 { std::uint64_t a; std::uint32_t b; };
struct s3 { std::uint32_t a; std::uint64_t b; std::uint32_t c; };
struct s4 { std::uint32_t a; std::uint64_t b; std::uint64_t c; };
struct s5 { std::uint32_t a; };
struct s6 { std::uint32_t a; std::uint32_t b; };
struct s7 { std::uint32_t a; std::uint32_t b; std::uint32_t c; };
struct s8 { std::uint64_t a; std::uint32_t b; std::uint32_t c; };
struct s9 { float a; };
struct s10 { double a; };
struct s11 { o::string a; };
struct s12 { o::string a; o::string b; };
struct s13 { o::vector<std::uint32_t> a; };
struct s14 { o::vector<std::uint64_t> a; };
struct s15 { o::vector<std::uint32_t> a; std::uint32_t b; };
struct s16 { std::uint32_t b; o::vector<std::uint32_t> a; };
struct s17 { cista::optional<std::uint32_t> a; };
struct s18 { o::hash_set<std::uint32_t> a; };
struct s19 { o::unique_ptr<std::uint32_t> a; };
struct s20 { o::ptr<std::uint32_t> a; };
struct s21 { array<std::uint32_t, 3> a; };
struct s22 { array<std::uint32_t, 4> a; };
struct s23 { o::vector<o::string> a; };
struct s24 { o::vector<o::vector<std::uint32_t>> a; };
struct s25 { o::variant<std::uint32_t, std::uint64_t> a; };
struct s26 { o::variant<std::uint64_t, std::uint32_t> a; };
struct s27 { cista::tuple<std::uint32_t, std::uint64_t> a; };
struct s28 { o::pair<std::uint32_t, std::uint64_t> a; };
struct s29 { o::pair<std::uint64_t, std::uint32_t> a; };
struct s30 { o::hash_map<std::uint32_t, std::uint64_t> a; };
struct s31 { o::hash_map<std::uint64_t, std::uint32_t> a; };
struct s32 { o::hash_set<std::uint64_t> a; };
struct s33 { std::uint8_t a; };
struct s34 { std::uint16_t a; };
struct s35 { std::uint64_t a; };
struct s36 { strong<std::uint32_t, struct tag_a> a; };
struct s37 { strong<std::uint32_t, struct tag_b> a; };
struct s38 { o::ptr<std::uint64_t> a; };
struct s39 { o::variant<std::uint32_t, std::uint64_t, std::uint8_t> a; };
struct s40 { cista::tuple<std::uint32_t, std::uint64_t, std::uint8_t> a; };
struct s41 { o::unique_ptr<std::uint64_t> a; };
struct s42 { cista::optional<std::uint64_t> a; };
struct s43 { bitset<32> a; };
struct s44 { bitset<100> a; };
struct s45 { o::vector<o::pair<std::uint32_t, std::uint32_t>> a; };
struct s46 { o::vecvec<std::uint32_t, std::uint32_t> a; };
struct s47 { std::chrono::duration<std::int64_t, std::ratio<1>> a; };
struct s48 { std::chrono::duration<std::int64_t, std::milli> a; };
enum class e1 : std::uint32_t { X };
struct s49 { s5 a; s5 b; };
struct s50 { s1 a; s2 b; };
struct s51 { s2 a; s1 b; };

template <typename... T>
void all_different(bool also_static) {
  std::vector<hash_t> h{type_hash<T>()...};
  std::vector<hash_t> again{type_hash<T>()...};
  vp_assert(h == again, "the type hash of a type is always the same");
  (void)also_static;
  for (std::size_t i = 0; i != h.size(); ++i) {
    for (std::size_t j = 0; j != i; ++j) {
      vp_assert(h[i] != h[j], "types that differ have different type hashes");
    }
  }
}
template <typename... T>
void all_different_static() {
  std::vector<hash_t> h{static_type_hash<T>()...};
  for (std::size_t i = 0; i != h.size(); ++i) {
    for (std::size_t j = 0; j != i; ++j) {
      vp_assert(h[i] != h[j], "types that differ have different static type hashes");
    }
  }
}
struct in2 { std::uint64_t a; std::uint32_t b; };
struct in3 { std::uint64_t a; std::uint32_t b; std::uint32_t c; };
struct nest2 { in2 a; std::uint32_t c; };
struct nest3 { in3 a; };
}  // namespace
NATIVE(type_hashes) {
  all_different<s1, s2, s3, s4, s5, s6, s7, s8, s9, s10, s11, s12, s13, s14, s15, s16, s17, s18, s19, s20, s21, s22, s23, s24, s25, s26,
                s27, s28, s29, s30, s31, s32, s33, s34, s35, s36, s37, s38, s39, s40, s41, s42, s43, s44, s45, s46, s47, s48>(true);
  all_different<s50, s51, s49, s5>(true);
}
NATIVE(static_type_hashes) {
  all_different_static<s1, s2, s3, s4, s5, s6, s7, s8, s9, s10, s11, s12, s13, s14, s15, s16, s17, s18, s19, s20, s21, s22, s23, s24, s25,
                       s26, s27, s28, s29, s30, s31, s32, s33, s34, s35>();
}
OBLIGATION(kf_type_hash_nesting) {
  vp_assert(type_hash<nest2>() != type_hash<nest3>(), "types of different nesting have different type hashes");
}
