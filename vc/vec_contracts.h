// Contracts of cista::basic_vector's storage operations, used at the call sites inside the
// containers built on it (the callee's contract instead of its body).  Each is proved for the
// vector itself in contracts/P06.cc (reserve_*, insert_one_*, insert_range_*, insert_copies_*).
// Element types here are trivially copyable.  reserve: afterwards the storage is somewhere, with
// room for at least m elements and the same elements; the old place must not be used any more
// (whether the storage really moved is left open, so callers may depend on neither).
#pragma once
#include "vp.h"
#ifndef VP_NATIVE

namespace vp {
template <typename V>
inline void vec_reserve(V* v, typename V::size_type m) {
  using T = typename V::value_type;
  using S = typename V::size_type;
  auto const cap = vp::any<S>("capacity");
  vp_assume(cap >= m && cap >= v->used_size_);
  auto* mem = static_cast<T*>(std::malloc(static_cast<std::uint64_t>(cap) * sizeof(T)));
  if (v->used_size_ != 0) {
    std::memcpy(mem, static_cast<T*>(v->el_), static_cast<std::uint64_t>(v->used_size_) * sizeof(T));
  }
  if (v->self_allocated_) {
    std::free(static_cast<T*>(v->el_));
  }
  v->el_ = mem;
  v->self_allocated_ = true;
  v->allocated_size_ = cap;
}
template <typename V>
inline typename V::value_type* vec_open(V* v, typename V::value_type* pos, typename V::size_type m) {
  using T = typename V::value_type;
  auto const i = pos - static_cast<T*>(v->el_);
  vp_assert(i >= 0 && static_cast<std::uint64_t>(i) <= v->used_size_, "precondition: the insert position is in the vector");
  vec_reserve(v, v->used_size_ + m);
  auto* p = static_cast<T*>(v->el_) + i;
  auto const tail = v->used_size_ - static_cast<std::uint64_t>(i);
  if (tail != 0) {
    std::memmove(p + m, p, tail * sizeof(T));
  }
  v->used_size_ += m;
  return p;
}
template <typename V>
inline typename V::value_type* vec_insert_range(V* v, typename V::value_type* pos, typename V::value_type const* first,
                                                typename V::value_type const* last) {
  using T = typename V::value_type;
  auto const m = static_cast<typename V::size_type>(last - first);
  if (m == 0) {
    return pos;
  }
  auto* p = vec_open(v, pos, m);
  std::memcpy(p, first, static_cast<std::uint64_t>(m) * sizeof(T));
  return p;
}
template <typename V>
inline typename V::value_type* vec_insert_one(V* v, typename V::value_type* pos, typename V::value_type const& x) {
  auto const el = x;
  auto* p = vec_open(v, pos, 1);
  *p = el;
  return p;
}
template <typename V>
inline typename V::value_type* vec_insert_copies(V* v, typename V::value_type* pos, typename V::size_type m, typename V::value_type const& x) {
  auto const el = x;
  if (m == 0) {
    return pos;
  }
  auto* p = vec_open(v, pos, m);
  for (typename V::size_type i = 0; i != m; ++i) {
    p[i] = el;
  }
  return p;
}
template <typename V>
inline typename V::value_type* vec_erase_range(V* v, typename V::value_type* first, typename V::value_type* last) {
  using T = typename V::value_type;
  if (first != last) {
    auto* e = static_cast<T*>(v->el_) + v->used_size_;
    if (last != e) {
      std::memmove(first, last, static_cast<std::uint64_t>(e - last) * sizeof(T));
    }
    v->used_size_ -= static_cast<typename V::size_type>(last - first);
  }
  return first;
}
}  // namespace vp

#define VEC_CONTRACTS(tag, V)                                                                                   \
  using vpt_##tag = V;                                                                                          \
  extern "C" {                                                                                                  \
  void vpc_reserve_##tag(vpt_##tag* v, vpt_##tag::size_type m) { vp::vec_reserve(v, m); }                       \
  vpt_##tag::value_type* vpc_insert_range_##tag(vpt_##tag* v, vpt_##tag::value_type* p,                         \
                                                vpt_##tag::value_type const* f, vpt_##tag::value_type const* l) { \
    return vp::vec_insert_range(v, p, f, l);                                                                    \
  }                                                                                                             \
  vpt_##tag::value_type* vpc_insert_one_##tag(vpt_##tag* v, vpt_##tag::value_type* p, vpt_##tag::value_type const& x) { \
    return vp::vec_insert_one(v, p, x);                                                                         \
  }                                                                                                             \
  vpt_##tag::value_type* vpc_insert_copies_##tag(vpt_##tag* v, vpt_##tag::value_type* p, vpt_##tag::size_type m, \
                                                 vpt_##tag::value_type const& x) {                              \
    return vp::vec_insert_copies(v, p, m, x);                                                                   \
  }                                                                                                             \
  vpt_##tag::value_type* vpc_erase_range_##tag(vpt_##tag* v, vpt_##tag::value_type* f, vpt_##tag::value_type* l) { \
    return vp::vec_erase_range(v, f, l);                                                                        \
  }                                                                                                             \
  }
#else
#define VEC_CONTRACTS(tag, V)
#endif
