// P02: checked deserialisation never accepts a pointer or range outside the buffer.
// The arithmetic and pointer checks are proved over arbitrary numbers; deserialize() is proved over
// arbitrary buffers (any length, any bytes), the object at an arbitrary position, for each
// pointer-carrying building block.  P02b.cc composes these contracts.
#include "deser.h"

namespace {
using u128 = unsigned __int128;
using i128 = __int128;

// ------------------------------------------------------------------------- checked arithmetic
template <typename Wide, typename T, typename... Ts>
void add_exact(T a, Ts... b) {
  auto const want = (static_cast<Wide>(a) + ... + static_cast<Wide>(b));
  auto thrown = false;
  T got{};
  try {
    got = checked_addition(a, b...);
  } catch (std::overflow_error const&) {
    thrown = true;
  }
  if (vp_fork(!thrown)) {
    vp_assert(static_cast<Wide>(got) == want, "the sum is exact");
  }
  if (vp_fork(thrown)) {
    auto const fits = want >= static_cast<Wide>(std::numeric_limits<T>::min()) && want <= static_cast<Wide>(std::numeric_limits<T>::max());
    // a sum of numbers of both signs may leave the range on the way
    vp_assert(!fits || (std::is_signed_v<T> && sizeof...(Ts) > 1), "only an overflowing sum is rejected");
  }
}
template <typename Wide, typename T>
void mul_exact(T a, T b) {
  auto thrown = false;
  T got{};
  try {
    got = checked_multiplication(a, b);
  } catch (std::overflow_error const&) {
    thrown = true;
  }
  auto const want = static_cast<Wide>(a) * static_cast<Wide>(b);
  vp_assert(thrown == (want > static_cast<Wide>(std::numeric_limits<T>::max())), "rejected exactly when the product overflows");
  vp_assert(thrown || static_cast<Wide>(got) == want, "the product is exact");
}

// ---------------------------------------------------------------------------- pointer checks
struct three {
  std::uint32_t a_, b_, c_;
};
template <typename T, typename P>
void pointer_check(std::uint64_t size) {
  input in;
  deserialization_context<mode::NONE> const c{in.b_, in.b_ + in.n_};
  vp_assume(in.n_ >= sizeof(P));
  auto& p = *reinterpret_cast<P*>(in.b_);  // any bytes
  auto const at = where(p);
  auto thrown = false;
  try {
    c.check_ptr(p, size);
  } catch (...) {
    thrown = true;
  }
  auto ok = at == 0 || in.inside(at, size, 1);
  if constexpr (!std::is_void_v<T>) {
    ok = at == 0 || in.inside(at, size, alignof(T));
  }
  if (vp_fork(!thrown)) {
    vp_assert(ok, "an accepted pointer is null or lies inside the buffer");
  }
  if (vp_fork(thrown)) {
    vp_assert(!ok, "only pointers that leave the buffer are rejected");
  }
}
}  // namespace

#define ADD(T, W) \
  OBLIGATION(add2_##T) { add_exact<W>(vp::any<std::T>("a"), vp::any<std::T>("b")); } \
  OBLIGATION(add3_##T) { add_exact<W>(vp::any<std::T>("a"), vp::any<std::T>("b"), vp::any<std::T>("c")); }
ADD(uint8_t, i128)
ADD(uint32_t, i128)
ADD(uint64_t, i128)
ADD(int32_t, i128)
ADD(int64_t, i128)
OBLIGATION(mul_uint8_t) { mul_exact<u128>(vp::any<std::uint8_t>("a"), vp::any<std::uint8_t>("b")); }
OBLIGATION(mul_uint16_t) { mul_exact<u128>(vp::any<std::uint16_t>("a"), vp::any<std::uint16_t>("b")); }
#define MULC(N) OBLIGATION(mul_by_##N) { mul_exact<u128, std::uint64_t>(vp::any<std::uint64_t>("a"), N); }
MULC(0) MULC(1) MULC(2) MULC(4) MULC(8) MULC(12) MULC(16) MULC(24) MULC(40) MULC(64)

#define PTR(NAME, T) \
  OBLIGATION(ptr_raw_##NAME) { pointer_check<T, T*>(sizeof(T)); } \
  OBLIGATION(ptr_off_##NAME) { pointer_check<T, offset_ptr<T>>(sizeof(T)); } \
  OBLIGATION(range_raw_##NAME) { pointer_check<T, T*>(vp::any_in<std::uint64_t>("size", 0, ~std::uint64_t{0})); } \
  OBLIGATION(range_off_##NAME) { pointer_check<T, offset_ptr<T>>(vp::any_in<std::uint64_t>("size", 0, ~std::uint64_t{0})); }
PTR(u8, std::uint8_t)
PTR(u32, std::uint32_t)
PTR(u64, std::uint64_t)
PTR(three, three)
OBLIGATION(ptr_raw_void) { pointer_check<void, void*>(0); }
OBLIGATION(range_raw_void) { pointer_check<void, void*>(vp::any<std::uint64_t>("size")); }
OBLIGATION(range_off_void) { pointer_check<void, offset_ptr<void>>(vp::any<std::uint64_t>("size")); }

// ------------------------------------------------------------------------------ deserialize()
namespace {
// Known finding kf_overlap_*: elements that are converted in place (big endian, raw pointers) and
// overlap the container they belong to change the container after it was checked.
template <typename T, mode M>
void apart([[maybe_unused]] input const& in, [[maybe_unused]] std::uint64_t pos) {
  if constexpr (is_mode_enabled(M, mode::SERIALIZE_BIG_ENDIAN)) {
    if (vp_fork(pos <= in.n_ && in.n_ - pos >= 8)) {
      std::uint64_t off = 0;
      for (unsigned i = 0; i != 8; ++i) {
        off = off << 8 | in.b_[pos + i];
      }
      vp_assume(off >= sizeof(T) && (off >> 63 != 0 ? off <= std::uint64_t{0} - MAXB : true));
    }
  }
}
// the whole way in
template <typename T, mode M = mode::NONE>
void arbitrary_bytes() {
  input in;
  T* p = nullptr;
  try {
    p = deserialize<T, M>(in.b_, in.b_ + in.n_);
  } catch (...) {
  }
  if (p != nullptr) {
    vp_assert(reinterpret_cast<std::uint64_t>(p) == in.begin() + static_cast<std::uint64_t>(data_start(M)), "the object starts behind the headers");
    in_buffer(in, p);
    accepted(in, *p);
  }
}
// an object anywhere
template <typename T, mode M = mode::NONE>
void arbitrary_element() {
  input in;
  auto const pos = vp::any_size<std::uint64_t>("pos", 0, 2 * MAXB, 220);
  apart<T, M>(in, pos);
  auto* p = reinterpret_cast<T*>(in.b_ + pos);
  deserialization_context<M> const c{in.b_, in.b_ + in.n_};
  auto thrown = false;
  try {
    deserialize(c, p);
  } catch (...) {
    thrown = true;
  }
  if (vp_fork(!thrown)) {
    in_buffer(in, p);
    accepted(in, *p);
  }
}
}  // namespace
namespace {
// the state of a hash container (the standard algorithms over its control bytes may read the range
// they are given; their result is arbitrary)
template <typename T>
void hash_state() {
  input in;
  vp_assume(in.n_ >= sizeof(T));
  auto* p = reinterpret_cast<T*>(in.b_);
  deserialization_context<mode::NONE> const c{in.b_, in.b_ + in.n_};
  auto thrown = false;
  try {
    convert_endian_and_ptr(c, p);
    check_state(c, p);
  } catch (...) {
    thrown = true;
  }
  if (vp_fork(!thrown)) {
    accepted(in, *p);
  }
}
// what the check computes for every slot reads control bytes only
template <typename T>
void hash_slot() {
  auto const cap = vp::any_size<std::uint64_t>("capacity", 1, MAXB, 63);
  auto* m = static_cast<std::uint8_t*>(vp_any_mem(cap + 9, 1, 16, "control bytes"));
  vp::raw<T> r;
  new (&r.v) T{};
  r.v.capacity_ = cap;
  r.v.ctrl_ = reinterpret_cast<typename T::ctrl_t*>(m);
  auto const i = vp::any_size<std::uint64_t>("i", 0, MAXB, 63);
  vp_assume(i < cap);
  (void)r.v.was_never_full(i);
  vp_assert(r.v.capacity_ == cap, "reads only");
}
}  // namespace
#ifndef VP_NATIVE
extern "C" bool vpc_all_of(std::uint8_t const* a, std::uint8_t const* b) {
  vp_assert(a <= b && vp_readable(a, static_cast<std::uint64_t>(b - a)), "the control bytes lie inside the buffer");
  return vp::any<bool>("all of");
}
extern "C" bool vpc_equal(std::uint8_t const* a, std::uint8_t const* b, std::uint8_t const* c) {
  vp_assert(a <= b && vp_readable(a, static_cast<std::uint64_t>(b - a)) && vp_readable(c, static_cast<std::uint64_t>(b - a)), "the control bytes lie inside the buffer");
  return vp::any<bool>("equal");
}
struct four {
  std::uint64_t v_[4];
};
extern "C" void vpc_accumulate(four* out, std::uint8_t const* a, std::uint8_t const* b) {
  vp_assert(a <= b && vp_readable(a, static_cast<std::uint64_t>(b - a)), "the control bytes lie inside the buffer");
  for (auto& v : out->v_) {
    v = vp::any_in<std::uint64_t>("count", 0, static_cast<std::uint64_t>(b - a));
  }
}
extern "C" bool vpc_add_checked(void*, void*) { return vp::any<bool>("new object"); }
#endif
#define ANYWHERE(NAME, ...) OBLIGATION(anywhere_##NAME) { arbitrary_element<__VA_ARGS__>(); }
#define BYTES(NAME, ...) OBLIGATION(bytes_##NAME) { arbitrary_bytes<__VA_ARGS__>(); }
constexpr auto BE = mode::SERIALIZE_BIG_ENDIAN;
ANYWHERE(u32, std::uint32_t)
ANYWHERE(u32_be, std::uint32_t, BE)
ANYWHERE(vector_u32_off, o::vector<std::uint32_t>)
ANYWHERE(vector_u32_raw, r::vector<std::uint32_t>)
ANYWHERE(vector_u8_off, o::vector<std::uint8_t>)
ANYWHERE(vector_u8_raw, r::vector<std::uint8_t>)
ANYWHERE(vector_u64_off, o::vector<std::uint64_t>)
ANYWHERE(vector_u64_raw, r::vector<std::uint64_t>)
ANYWHERE(vector_three_off, o::vector<three>)
ANYWHERE(string_off, o::string)
ANYWHERE(string_raw, r::string)
ANYWHERE(string_off_be, o::string, BE)
ANYWHERE(string_view_off, o::string_view)
ANYWHERE(unique_off, o::unique_ptr<std::uint32_t>)
ANYWHERE(unique_raw, r::unique_ptr<std::uint32_t>)
ANYWHERE(unique_three_off, o::unique_ptr<three>)
ANYWHERE(unique_off_be, o::unique_ptr<std::uint32_t>, BE)
ANYWHERE(ptr_off, o::ptr<std::uint32_t>)
ANYWHERE(ptr_raw, r::ptr<std::uint32_t>)
ANYWHERE(ptr_off_be, o::ptr<std::uint32_t>, BE)
ANYWHERE(ptr_raw_be, r::ptr<std::uint32_t>, BE)
ANYWHERE(optional_u32, optional<std::uint32_t>)
ANYWHERE(variant, variant<std::uint32_t, std::uint64_t, std::uint8_t>)
ANYWHERE(array, array<std::uint32_t, 3>)
ANYWHERE(bitset, bitset<100>)
ANYWHERE(cstring_off, o::cstring)
ANYWHERE(cstring_raw, r::cstring)
ANYWHERE(cstring_off_be, o::cstring, BE)
ANYWHERE(u16string_off, o::u16string)
ANYWHERE(u16string_raw, r::u16string)
ANYWHERE(bitvec_off, o::bitvec)
BYTES(u32, std::uint32_t)
BYTES(vector_u32_off, o::vector<std::uint32_t>)
BYTES(vector_u32_raw, r::vector<std::uint32_t>)
BYTES(vector_u32_off_headers, o::vector<std::uint32_t>, mode::SKIP_VERSION | mode::SKIP_INTEGRITY)
BYTES(string_off, o::string)
BYTES(unique_raw, r::unique_ptr<std::uint32_t>)
BYTES(ptr_off, o::ptr<std::uint32_t>)
BYTES(ptr_off_deep, o::ptr<std::uint32_t>, mode::DEEP_CHECK)
BYTES(vector_u32_off_deep, o::vector<std::uint32_t>, mode::DEEP_CHECK)
BYTES(unique_off_deep, o::unique_ptr<std::uint32_t>, mode::DEEP_CHECK)
OBLIGATION(hash_state_off) { hash_state<o::hash_set<std::uint32_t>>(); }
OBLIGATION(hash_state_raw) { hash_state<r::hash_set<std::uint32_t>>(); }
OBLIGATION(hash_slot_off) { hash_slot<o::hash_set<std::uint32_t>>(); }
OBLIGATION(hash_slot_raw) { hash_slot<r::hash_set<std::uint32_t>>(); }
