// Shared by the P02 units: arbitrary buffers and what deserialising them may accept.
#pragma once
#include "vp.h"
#include "arb.h"

#include <stdexcept>
#include <string>
#include <vector>

#include "cista/containers.h"
#include "cista/reflection/comparable.h"
#include "cista/serialization.h"

using namespace cista;
namespace o = cista::offset;
namespace r = cista::raw;

namespace {
constexpr std::uint64_t MAXB = std::uint64_t{1} << 40;

// --------------------------------------------------------------------------------- the buffer
struct input {
  explicit input(std::uint64_t hi = 200) {
    n_ = vp::any_size<std::uint64_t>("bytes", 0, MAXB, hi);
    b_ = static_cast<std::uint8_t*>(vp_any_mem(n_, 1, 16, "buffer"));
  }
  input(std::uint8_t* b, std::uint64_t n) : n_{n}, b_{b} {}
  std::uint64_t begin() const { return reinterpret_cast<std::uint64_t>(b_); }
  bool inside(std::uint64_t at, std::uint64_t len, std::uint64_t align) const {
    return at >= begin() && at - begin() <= n_ && len <= n_ - (at - begin()) && at % align == 0;
  }
  // null or inside
  void range(std::uint64_t at, std::uint64_t len, std::uint64_t align, char const* what) const {
    if (vp_fork(at != 0)) {
      vp_assert(at >= begin(), what);
      vp_assert(at <= begin() + n_ && len <= MAXB, what);
      vp_assert(at + len <= begin() + n_, what);
      vp_assert(at % align == 0, what);
    }
  }
  std::uint64_t n_;
  std::uint8_t* b_;
};
template <typename T>
std::uint64_t where(T* const& p) {
  return reinterpret_cast<std::uint64_t>(p);
}
template <typename T>
std::uint64_t where(offset_ptr<T> const& p) {
  return p.offset_ == NULLPTR_OFFSET ? 0 : reinterpret_cast<std::uint64_t>(&p) + static_cast<std::uint64_t>(p.offset_);
}


template <typename T>
void in_buffer(input const& in, T const* p) {
  vp_assert(in.inside(reinterpret_cast<std::uint64_t>(p), sizeof(T), alignof(T)), "the object lies inside the buffer");
}
// what deserialising accepted
template <typename T, template <typename> typename P, bool I, typename S>
void accepted(input const& in, basic_vector<T, P, I, S> const& v) {
  auto const at = where(v.el_);
  auto const n = static_cast<std::uint64_t>(v.used_size_);
  vp_assert(n == v.allocated_size_, "allocated = used");
  vp_assert((at == 0) == (n == 0), "null exactly when empty");
  vp_assert(n <= MAXB, "the number of elements");
  in.range(at, n * sizeof(T), alignof(T), "the elements lie inside the buffer");
  vp_assert(*reinterpret_cast<std::uint8_t const*>(&v.self_allocated_) == 0, "a deserialised vector does not own its elements");
}
template <typename P>
void accepted(input const& in, generic_string<P> const& s) {
  auto const tag = *reinterpret_cast<std::uint8_t const*>(&s.s_.is_short_);
  vp_assert(tag <= 1, "short or long");
  if (vp_fork(tag == 0)) {
    auto const at = where(s.h_.ptr_);
    vp_assert((at == 0) == (s.h_.size_ == 0), "null exactly when empty");
    in.range(at, s.h_.size_, 1, "the text lies inside the buffer");
    vp_assert(*reinterpret_cast<std::uint8_t const*>(&s.h_.self_allocated_) == 0, "a deserialised text is not owned");
  }
}
template <typename T, typename P>
void accepted(input const& in, basic_unique_ptr<T, P> const& u) {
  auto const at = where(u.el_);
  in.range(at, sizeof(T), alignof(T), "the object lies inside the buffer");
  vp_assert(*reinterpret_cast<std::uint8_t const*>(&u.self_allocated_) == 0, "a deserialised object is not owned");
}
template <typename T>
void accepted(input const& in, T* const& p) {
  in.range(where(p), sizeof(T), alignof(T), "the pointer is null or inside");
}
template <typename T>
void accepted(input const& in, offset_ptr<T> const& p) {
  in.range(where(p), sizeof(T), alignof(T), "the pointer is null or inside");
}
template <typename T>
void accepted(input const&, optional<T> const& p) {
  vp_assert(*reinterpret_cast<std::uint8_t const*>(&p.valid_) <= 1, "empty or not");
}
template <typename T, typename P>
void accepted(input const& in, pair<T, P> const& p) {
  accepted(in, p.first);
  accepted(in, p.second);
}
inline void accepted(input const&, std::uint32_t const&) {}
inline void accepted(input const&, array<std::uint32_t, 3> const&) {}
template <std::size_t N>
void accepted(input const&, bitset<N> const&) {}
template <typename... T>
void accepted(input const&, variant<T...> const& v) {
  vp_assert(*reinterpret_cast<std::uint8_t const*>(&v.idx_) < sizeof...(T), "one of the alternatives");
}
template <typename P>
void accepted(input const& in, generic_cstring<P> const& s) {
  if (vp_fork(s.s_.remaining_ >= 0)) {
    vp_assert(s.s_.remaining_ <= 15, "the text fits inline");
  } else {
    auto const at = where(s.h_.ptr_);
    vp_assert(at != 0, "a long text has characters");
    in.range(at, std::uint64_t{s.h_.size_} + 1, 1, "the text and its terminator lie inside the buffer");
    vp_assert(*reinterpret_cast<std::uint8_t const*>(&s.h_.self_allocated_) == 0, "a deserialised text is not owned");
  }
}
template <typename V, typename K>
void accepted(input const& in, basic_bitvec<V, K> const& v) {
  accepted(in, v.blocks_);
  vp_assert(v.size_ / 64 + (v.size_ % 64 != 0 ? 1 : 0) <= v.blocks_.used_size_, "the blocks hold the bits");
}
template <typename T, template <typename> typename P, typename G, typename GV, typename H, typename E>
void accepted(input const& in, hash_storage<T, P, G, GV, H, E> const& h) {
  auto const e = where(h.entries_), c = where(h.ctrl_);
  vp_assert(h.capacity_ <= MAXB && (h.capacity_ & (h.capacity_ + 1)) == 0, "the capacity is 2^n-1");
  vp_assert(c != 0 && (e == 0) == (h.capacity_ == 0), "entries exactly when there is capacity");
  in.range(e, h.capacity_ * sizeof(T) + h.capacity_ + 9, alignof(T), "the entries lie inside the buffer");
  in.range(c, h.capacity_ + 9, 1, "the control bytes lie inside the buffer");
  vp_assert(e == 0 || c == e + h.capacity_ * sizeof(T), "the control bytes follow the entries");
  vp_assert(*reinterpret_cast<std::uint8_t const*>(&h.self_allocated_) == 0, "not owned");
}
}  // namespace
