// Arbitrary (symbolic) container objects satisfying the containers' representation invariant,
// and ghost-counted element types.
#pragma once
#include "vp.h"

#include "cista/containers/vector.h"

namespace vp {

// ghost-counted element: construction and destruction are checked object by object
struct tracked {
  static constexpr std::uint32_t alive = 0x600DC0DEu;
  static inline std::int64_t live = 0;
  tracked() noexcept : v_{0}, mark_{alive} { ++live; }
  tracked(std::uint32_t v) noexcept : v_{v}, mark_{alive} { ++live; }
  tracked(tracked const& o) noexcept : v_{o.v_}, mark_{alive} {
    vp_assert(o.mark_ == alive, "copied from a live element");
    ++live;
  }
  tracked(tracked&& o) noexcept : v_{o.v_}, mark_{alive} {
    vp_assert(o.mark_ == alive, "moved from a live element");
    ++live;
  }
  tracked& operator=(tracked const& o) noexcept {
    vp_assert(mark_ == alive && o.mark_ == alive, "assigned between live elements");
    v_ = o.v_;
    return *this;
  }
  tracked& operator=(tracked&& o) noexcept {
    vp_assert(mark_ == alive && o.mark_ == alive, "move-assigned between live elements");
    v_ = o.v_;
    return *this;
  }
  ~tracked() noexcept {
    vp_assert(mark_ == alive, "destroyed exactly once");
    mark_ = 0xDEADDEADu;
    --live;
  }
  bool operator==(tracked const& o) const { return v_ == o.v_; }
  bool operator<(tracked const& o) const { return v_ < o.v_; }
  std::uint32_t v_, mark_;
};

template <typename T>
constexpr std::uint32_t cell_of = std::is_same_v<T, tracked> ? 4 : sizeof(T) > 8 ? 8 : sizeof(T);

// an arbitrary vector: any size, any capacity, any content; owned or borrowed storage
template <typename V>
inline void arb_vector(raw<V>& r, typename V::size_type const max_cap, bool const owned) {
  using T = typename V::value_type;
  using S = typename V::size_type;
  new (&r.v) V{};
  auto const cap = vp::any_size<S>("capacity", 0, max_cap);
  auto const n = vp::any_in<S>("size", 0, cap);
  (void)owned;
  if (cap != 0) {
    r.v.el_ = static_cast<T*>(vp_any_mem(static_cast<std::uint64_t>(cap) * sizeof(T), cell_of<T>, 16, "el"));
    r.v.allocated_size_ = cap;
    r.v.used_size_ = n;
    r.v.self_allocated_ = owned;
  }
  if constexpr (std::is_same_v<T, tracked>) {
#ifdef VP_NATIVE
    for (std::uint64_t i = 0; i != cap; ++i) {
      const_cast<T*>(r.v.begin())[i].mark_ = i < n ? tracked::alive : 0;
    }
#else
    if (cap != 0) {
      vp::each(static_cast<T*>(r.v.el_), [n](std::uint64_t k, std::uint64_t c) {
        return k % 2 == 0 || c == (k / 2 < n ? tracked::alive : 0);
      });
    }
#endif
    tracked::live = n;
  }
}

template <typename T>
inline std::uint32_t val(T const& t) {
  if constexpr (std::is_same_v<T, tracked>) {
    return t.v_;
  } else {
    return static_cast<std::uint32_t>(t);
  }
}


// representation invariant of a vector: the storage of `capacity` elements is really there
template <typename V>
inline void check_vector(V const& v) {
  using T = typename V::value_type;
  vp_assert(v.used_size_ <= v.allocated_size_ || v.used_size_ == 0, "size does not exceed capacity");
  auto const* p = static_cast<void const*>(v.begin());
  vp_assert(v.used_size_ == 0 || vp_readable(p, static_cast<std::uint64_t>(v.allocated_size_) * sizeof(T)),
            "the capacity is backed by memory");
}

}  // namespace vp
