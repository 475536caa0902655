// Contract vocabulary.  The same contract text is (a) compiled to LLVM IR and proved by
// the verification-condition generator (vc/), where the vp_* functions are intrinsics, and
// (b) compiled natively (-DVP_NATIVE), where vp_any* draw concrete values (from a replay
// file or a seeded generator) so a counterexample can be run against the real code.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <new>
#include <type_traits>
#include <utility>

extern "C" {
uint64_t vp_any(uint32_t bits, char const* name);
void* vp_any_mem(uint64_t bytes, uint32_t cell, uint32_t align, char const* name);
void vp_assume(bool);
void vp_assert(bool, char const* label);
void vp_cover(char const* label);
uint64_t vp_uf(char const* name, uint64_t a, uint64_t b);
void vp_index(uint64_t);
uint64_t vp_live_heap();
uint64_t vp_obj_size(void const*);
bool vp_readable(void const*, uint64_t);
void vp_each(void const* region, bool (*pred)(void const*, uint64_t, uint64_t), void const* env);
void vp_note(char const*);
bool vp_symbolic();
bool vp_fork(bool);
#ifdef VP_NATIVE
uint64_t vp_any_in(uint32_t bits, char const* name, uint64_t lo, uint64_t hi);
uint64_t vp_any_size(uint32_t bits, char const* name, uint64_t lo, uint64_t hi, uint64_t native_hi);
#endif
}

// OBLIGATION: a contract, proved symbolically for all inputs, and natively executable (replay).
// NATIVE: a scenario that only runs natively (labelled bounded; never counted as proved).
// SYMBOLIC: a contract that has no native meaning (uses stubs).
#ifdef VP_NATIVE
namespace vp {
// puts ghost state back to its initial value before every native run
inline void (*reset)() = nullptr;
struct reg {
  reg(char const* n, void (*f)(), bool bounded);
};
}
#define OBLIGATION(name)                               \
  extern "C" void ob_##name();                         \
  static vp::reg reg_##name{#name, ob_##name, false};  \
  extern "C" void ob_##name()
#define NATIVE(name)                                   \
  static void bd_##name();                             \
  static vp::reg regb_##name{#name, bd_##name, true};  \
  static void bd_##name()
#define SYMBOLIC(name) [[maybe_unused]] static void sy_##name()
#else
#define OBLIGATION(name) extern "C" void ob_##name()
#define NATIVE(name) [[maybe_unused]] static void bd_##name()
#define SYMBOLIC(name) extern "C" void ob_##name()
#endif

namespace vp {
template <typename T>
inline T any(char const* n) {
  if constexpr (std::is_same_v<T, bool>) {
    return vp_any(1, n) != 0;
  } else {
    return static_cast<T>(vp_any(sizeof(T) * 8, n));
  }
}
// any value in [lo, hi]
template <typename T>
inline T any_in(char const* n, T lo, T hi) {
#ifdef VP_NATIVE
  return static_cast<T>(vp_any_in(sizeof(T) * 8, n, static_cast<uint64_t>(lo), static_cast<uint64_t>(hi)));
#else
  auto const v = static_cast<T>(vp_any(sizeof(T) * 8, n));
  vp_assume(lo <= v && v <= hi);
  return v;
#endif
}
// the same; native exploration stays below native_hi (replays do not)
template <typename T>
inline T any_size(char const* n, T lo, T hi, [[maybe_unused]] T native_hi = 120) {
#ifdef VP_NATIVE
  return static_cast<T>(vp_any_size(sizeof(T) * 8, n, static_cast<uint64_t>(lo), static_cast<uint64_t>(hi), static_cast<uint64_t>(native_hi)));
#else
  return any_in<T>(n, lo, hi);
#endif
}
// arbitrary array object of n elements (n symbolic, no bound)
template <typename T>
inline T* any_array(uint64_t n, char const* name) {
  return static_cast<T*>(vp_any_mem(n * sizeof(T), sizeof(T) > 8 ? 8 : sizeof(T),
                                    alignof(T) < 16 ? 16 : alignof(T), name));
}
// for all k < number of cells: f(k, cell k)
template <typename F>
inline void each(void const* region, F const& f) {
  vp_each(
      region,
      [](void const* env, uint64_t k, uint64_t v) -> bool { return (*static_cast<F const*>(env))(k, v); }, &f);
}
// case split: the value of v, which is below N, as a constant on each path
template <unsigned N, typename T>
inline T enumerate(T v) {
  for (unsigned i = 0; i != N; ++i) {
    if (vp_fork(v == static_cast<T>(i))) {
      return static_cast<T>(i);
    }
  }
  vp_assume(false);
  return v;
}
inline void assume(bool b) { vp_assume(b); }
inline void check(bool b, char const* l) { vp_assert(b, l); }
// an arbitrary index: what is proved about it holds for every index
inline uint64_t index(char const* n) {
  auto const i = vp_any(64, n);
  vp_index(i);
  return i;
}
// uninitialised storage for a T without running constructors/destructors
template <typename T>
union raw {
  raw() {}
  ~raw() {}
  T v;
};
}  // namespace vp
