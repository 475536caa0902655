// P04: an offset pointer denotes the same object as the raw pointer it stands for.
// Abstract view of an offset_ptr object: the raw pointer get() returns.  The offset pointer
// objects live at arbitrary places (locals, array elements, inside the object they point to).
#include "vp.h"

#include "cista/containers/offset_ptr.h"
#include "cista/containers/ptr.h"

using namespace cista;

namespace {
struct node {
  std::uint64_t v;
  offset_ptr<node> next;
  std::uint32_t w;
};

// an arbitrary pointer: null, or into an array of n elements (one past the end included)
template <typename T>
T* arb_ptr(T* base, std::uint64_t n, char const* nm) {
  auto const is_null = vp::any<bool>("null");
  auto const i = vp::any<std::uint64_t>(nm);
  vp_assume(i <= n);
  return is_null ? nullptr : base + i;
}

template <typename T>
void give_and_take() {
  auto const n = vp::any_size<std::uint64_t>("n", 1, std::uint64_t{1} << 20);
  auto* a = vp::any_array<T>(n, "a");
  auto* p = arb_ptr(a, n, "i");
  auto* q = arb_ptr(a, n, "j");
  offset_ptr<T> o{p};
  vp_assert(o.get() == p, "constructed from a pointer");
  vp_assert(static_cast<bool>(o) == (p != nullptr), "bool");
  T* conv = o;
  vp_assert(conv == p, "conversion");
  vp_assert(static_cast<void*>(o) == p, "void conversion");
  vp_assert(static_cast<void const*>(o) == p, "void const conversion");
  offset_ptr<T> c{o};
  vp_assert(c.get() == p && o.get() == p, "copied");
  offset_ptr<T> m{std::move(c)};
  vp_assert(m.get() == p, "moved");
  offset_ptr<T> d;
  vp_assert(d.get() == nullptr && !d, "default is null");
  offset_ptr<T> e{nullptr};
  vp_assert(e.get() == nullptr && !e, "null constructed");
  auto& r1 = (d = q);
  vp_assert(d.get() == q && &r1 == &d, "assigned a pointer");
  auto& r2 = (d = o);
  vp_assert(d.get() == p && o.get() == p && &r2 == &d, "copy assigned");
  auto& self = d;
  d = self;
  vp_assert(d.get() == p, "self assigned");
  m = q;
  auto& r3 = (d = std::move(m));
  vp_assert(d.get() == q && &r3 == &d, "move assigned");
  auto& r4 = (d = nullptr);
  vp_assert(d.get() == nullptr && &r4 == &d && !d, "assigned null");
}

template <typename T>
void arithmetic() {
  auto const n = vp::any_size<std::uint64_t>("n", 1, std::uint64_t{1} << 20);
  auto* a = vp::any_array<T>(n, "a");
  auto const i = vp::any_in<std::uint64_t>("i", 0, n);
  auto const k = vp::any_in<std::uint64_t>("k", 0, n);
  offset_ptr<T> o{a + i};
  if (k >= i) {
    vp_assert(o + (k - i) == a + k, "+ unsigned");
    vp_assert(o + static_cast<int>(k - i) == a + k, "+ int");
  } else {
    vp_assert(o - (i - k) == a + k, "- unsigned");
    vp_assert(o + (static_cast<std::int64_t>(k) - static_cast<std::int64_t>(i)) == a + k, "+ negative");
  }
  vp_assert(o.get() == a + i, "+ and - leave the pointer alone");
  if (k < n && k >= i) {
    vp_assert(&o[k - i] == a + k, "[]");
  }
  if (i < n) {
    vp_assert(&*o == a + i, "*");
    vp_assert(o.operator->() == a + i, "->");
    auto up = o;
    auto& r = ++up;
    vp_assert(up.get() == a + i + 1 && &r == &up, "++p");
  }
  if (i > 0) {
    auto down = o;
    auto& r = --down;
    vp_assert(down.get() == a + i - 1 && &r == &down, "--p");
  }
}

using idx_t = strong<std::uint32_t, struct idx_tag>;

}  // namespace

OBLIGATION(give_and_take_u8) { give_and_take<std::uint8_t>(); }
OBLIGATION(give_and_take_u32) { give_and_take<std::uint32_t>(); }
OBLIGATION(give_and_take_u64) { give_and_take<std::uint64_t>(); }
OBLIGATION(give_and_take_struct) { give_and_take<node>(); }
OBLIGATION(arithmetic_u8) { arithmetic<std::uint8_t>(); }
OBLIGATION(arithmetic_u32) { arithmetic<std::uint32_t>(); }
OBLIGATION(arithmetic_u64) { arithmetic<std::uint64_t>(); }
OBLIGATION(arithmetic_struct) { arithmetic<node>(); }

OBLIGATION(arithmetic_strong) {
  auto const n = vp::any_size<std::uint64_t>("n", 1, std::uint64_t{1} << 20);
  auto* a = vp::any_array<std::uint32_t>(n, "a");
  auto const i = vp::any_in<std::uint64_t>("i", 0, n);
  auto const k = vp::any_in<std::uint64_t>("k", 0, n);
  offset_ptr<std::uint32_t> o{a + i};
  if (k >= i) {
    vp_assert(o + idx_t{static_cast<std::uint32_t>(k - i)} == a + k, "+ strong");
  } else {
    vp_assert(o - idx_t{static_cast<std::uint32_t>(i - k)} == a + k, "- strong");
  }
}

OBLIGATION(post_increment) {
  std::uint64_t a[4];
  auto const i = vp::any_in<unsigned>("i", 0, 3);
  offset_ptr<std::uint64_t> o{a + i};
  auto const old = o++;
  vp_assert(old.get() == a + i, "p++ yields the old pointer");
  vp_assert(o.get() == a + i + 1, "p++ advances");
}
OBLIGATION(post_decrement) {
  std::uint64_t a[4];
  auto const i = vp::any_in<unsigned>("i", 1, 4);
  offset_ptr<std::uint64_t> o{a + i};
  auto const old = o--;
  vp_assert(old.get() == a + i, "p-- yields the old pointer");
  vp_assert(o.get() == a + i - 1, "p-- steps back");
}

OBLIGATION(comparisons) {
  auto const n = vp::any_size<std::uint64_t>("n", 1, std::uint64_t{1} << 20);
  auto* a = vp::any_array<std::uint32_t>(n, "a");
  auto* p = arb_ptr(a, n, "i");
  auto* q = arb_ptr(a, n, "j");
  offset_ptr<std::uint32_t> const o{p};
  offset_ptr<std::uint32_t> const r{q};
  vp_assert((o == r) == (p == q), "==");
  vp_assert((o != r) == (p != q), "!=");
  vp_assert((o == q) == (p == q) && (p == r) == (p == q), "== raw");
  vp_assert((o == nullptr) == (p == nullptr), "== null");
  vp_assert((o != nullptr) == (p != nullptr), "!= null");
  if (p != nullptr && q != nullptr) {
    vp_assert((o < r) == (p < q) && (o > r) == (p > q), "ordering");
    vp_assert((o <= r) == (p <= q) && (o >= r) == (p >= q), "weak ordering");
    vp_assert(o.get() - r.get() == p - q && p - r == p - q, "difference");
  }
}

OBLIGATION(void_pointer) {
  auto const n = vp::any_size<std::uint64_t>("n", 1, std::uint64_t{1} << 20);
  auto* a = vp::any_array<std::uint32_t>(n, "a");
  void* p = arb_ptr(a, n, "i");
  void* q = arb_ptr(a, n, "j");
  offset_ptr<void> o{p};
  vp_assert(o.get() == p && static_cast<bool>(o) == (p != nullptr), "constructed");
  vp_assert(static_cast<void*>(o) == p && static_cast<void const*>(o) == p, "converted");
  offset_ptr<void> c{o};
  vp_assert(c.get() == p, "copied");
  offset_ptr<void> m{std::move(c)};
  vp_assert(m.get() == p, "moved");
  auto& r1 = (m = q);
  vp_assert(m.get() == q && &r1 == &m, "assigned");
  auto& r2 = (m = o);
  vp_assert(m.get() == p && &r2 == &m && o.get() == p, "copy assigned");
  c = q;
  auto& r3 = (m = std::move(c));
  vp_assert(m.get() == q && &r3 == &m, "move assigned");
  vp_assert((o == nullptr) == (p == nullptr) && (nullptr == o) == (p == nullptr), "== null");
  vp_assert((o != nullptr) == (p != nullptr) && (nullptr != o) == (p != nullptr), "!= null");
  auto& r4 = (m = nullptr);
  vp_assert(m.get() == nullptr && !m && &r4 == &m, "null");
  offset_ptr<void> d;
  offset_ptr<void> e{nullptr};
  vp_assert(d.get() == nullptr && e.get() == nullptr, "default null");
}

// writing through what the pointer denotes changes the target and nothing else
OBLIGATION(dereference) {
  auto const n = vp::any_size<std::uint64_t>("n", 1, std::uint64_t{1} << 20);
  auto* a = vp::any_array<std::uint64_t>(n, "a");
  auto const i = vp::any_in<std::uint64_t>("i", 0, n - 1);
  auto const j = vp::any_in<std::uint64_t>("j", 0, n - 1);
  auto const old = a[j];
  auto const v = vp::any<std::uint64_t>("v");
  auto* cells = vp::any_array<offset_ptr<std::uint64_t>>(3, "cells");
  cells[0] = a + i;
  cells[1] = cells[0];
  cells[2] = cells[1];
  *cells[2] = v;
  vp_assert(a[j] == (i == j ? v : old), "exactly the target changes");
  vp_assert(cells[0].get() == a + i && cells[1].get() == a + i, "the pointers do not");
}

// pointers located inside the array they point into, at any distance, including themselves
OBLIGATION(inside_its_target) {
  auto const n = vp::any_size<std::uint64_t>("n", 1, std::uint64_t{1} << 20);
  auto* a = vp::any_array<node>(n, "a");
  auto const i = vp::any_in<std::uint64_t>("i", 0, n - 1);
  auto const j = vp::any_in<std::uint64_t>("j", 0, n - 1);
  auto const k = vp::any_in<std::uint64_t>("k", 0, n - 1);
  a[i].next = a + j;
  vp_assert(a[i].next.get() == a + j && static_cast<bool>(a[i].next), "stored");
  a[k].next = a[i].next;
  vp_assert(a[k].next.get() == a + j, "copied to another element");
  vp_assert(a[i].next.get() == a + j, "original unchanged");
}
OBLIGATION(points_to_itself) {
  union cell {
    cell() {}
    ~cell() {}
    offset_ptr<cell> p;
  };
  cell c;
  new (&c.p) offset_ptr<cell>{&c};
  vp_assert(static_cast<bool>(c.p) && c.p.get() == &c, "a pointer to its own place is not null");
}

// moving the bytes of pointer and target together keeps the relation
OBLIGATION(relocation) {
  auto const n = vp::any_size<std::uint64_t>("n", 1, std::uint64_t{1} << 16);
  auto* a = vp::any_array<node>(n, "a");
  auto* b = vp::any_array<node>(n, "b");
  auto const i = vp::any_in<std::uint64_t>("i", 0, n - 1);
  auto const j = vp::any_in<std::uint64_t>("j", 0, n - 1);
  auto const is_null = vp::any<bool>("null");
  a[i].next = is_null ? nullptr : a + j;
  std::memcpy(static_cast<void*>(b), static_cast<void*>(a), n * sizeof(node));
  vp_assert(b[i].next.get() == (is_null ? nullptr : b + j), "denotes the moved object");
  vp_assert(a[i].next.get() == (is_null ? nullptr : a + j), "the original still its own");
}

// cista::ptr of both flavours
OBLIGATION(flavours) {
  auto const n = vp::any_size<std::uint64_t>("n", 1, std::uint64_t{1} << 20);
  auto* a = vp::any_array<std::uint32_t>(n, "a");
  auto* p = arb_ptr(a, n, "i");
  offset::ptr<std::uint32_t> o = p;
  raw::ptr<std::uint32_t> r = p;
  vp_assert(static_cast<std::uint32_t*>(o) == r, "both flavours denote the same object");
  static_assert(is_pointer_v<offset::ptr<int>> && is_pointer_v<raw::ptr<int>> && !is_pointer_v<int>);
  static_assert(std::is_same_v<remove_pointer_t<offset::ptr<int>>, int> && std::is_same_v<remove_pointer_t<int*>, int>);
}
