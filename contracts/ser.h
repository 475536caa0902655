// Shared by the P01 units: a serialisation context whose target is a memory of arbitrary content that
// behaves as the contract of the targets says (P05): blocks go to any aligned position behind the data.
#pragma once
#include "vp.h"
#include "arb.h"

#include <string>

#include "cista/containers.h"
#include "cista/serialization.h"

using namespace cista;
namespace o = cista::offset;
namespace r = cista::raw;

namespace {
constexpr std::uint64_t MAXB = std::uint64_t{1} << 40;
constexpr auto BE = mode::SERIALIZE_BIG_ENDIAN;

struct memory {
  explicit memory(std::uint64_t hi = 100) {
    cap_ = std::uint64_t{1} << 42;
#ifdef VP_NATIVE
    cap_ = 1U << 16;
#endif
    m_ = static_cast<std::uint8_t*>(vp_any_mem(cap_, 1, 16, "target"));
    n_ = vp::any_size<std::uint64_t>("written", 0, MAXB, hi);
  }
  std::uint64_t place(std::uint64_t size, std::uint64_t align) {
    auto const at = vp::any_in<std::uint64_t>("place", n_, n_ + (align == 0 ? 0 : align - 1));
    vp_assume(align == 0 || at % align == 0);
    vp_assert(size <= cap_ - at, "sizes stay below the bounds chosen here");
    n_ = at + size;
    last_ = at;
    return at;
  }
  std::uint8_t* m_;
  std::uint64_t n_, cap_, last_{0};
};

// what serialising remembers about owned objects
struct remembered {
  std::int64_t& operator[](void const* p) {
    key_ = p;
    ++n_;
    return value_;
  }
  template <typename P>
  void emplace(P p, std::int64_t v) {
    key_ = p;
    ++n_;
    value_ = v;
  }
  void const* key_{nullptr};
  std::int64_t value_{0};
  unsigned n_{0};
};
struct remembered_range {
  template <typename P>
  void emplace(P p, vector_range r) {
    key_ = p;
    ++n_;
    value_ = r;
  }
  void const* key_{nullptr};
  vector_range value_{0, 0};
  unsigned n_{0};
};
template <mode M>
struct context {
  static constexpr auto const MODE = M;
  explicit context(memory& t) : t_{t} {}
  offset_t write(void const* p, std::size_t size, std::size_t align = 0) {
    auto const at = t_.place(size, align);
    std::memcpy(t_.m_ + at, p, size);
    return static_cast<offset_t>(at);
  }
  template <typename T>
  void write(offset_t pos, T const& v) {
    auto const at = static_cast<std::uint64_t>(pos);
    vp_assert(at <= t_.n_ && sizeof(T) <= t_.n_ - at, "written inside the data");
    std::memcpy(t_.m_ + at, &v, sizeof(T));
  }
  // contract of serialization_context::resolve_pointer for an object whose image is known
  template <typename P>
  bool resolve_pointer(P const& p, offset_t pos, bool = true) {
    void const* const q = static_cast<std::remove_reference_t<decltype(*p)> const*>(p);
    vp_assert(q == nullptr || q == offsets_.key_, "the image of the target is known");
    write(pos, ::cista::convert_endian<M>(q == nullptr ? NULLPTR_OFFSET : offsets_.value_ - pos));
    return true;
  }
  remembered offsets_;
  remembered_range vector_ranges_;
  memory& t_;
};

// ------------------------------------------------------------------------- equal after the trip
template <typename M, typename T>
bool inside(M const& m, T const* p, std::uint64_t n) {
  auto const at = reinterpret_cast<std::uint64_t>(p), b = reinterpret_cast<std::uint64_t>(m.m_);
  return at >= b && at - b <= m.n_ && n * sizeof(T) <= m.n_ - (at - b) && at % alignof(T) == 0;
}
}  // namespace
