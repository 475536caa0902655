// P21: optionals, unique pointers and tuples keep value and ownership.
#include "vp.h"
#include "arb.h"

#include "cista/containers/optional.h"
#include "cista/containers/pair.h"
#include "cista/containers/tuple.h"
#include "cista/containers/unique_ptr.h"

using namespace cista;
using vp::tracked;

#ifdef VP_NATIVE
[[maybe_unused]] auto const set_reset = vp::reset = [] { tracked::live = 0; };
#endif

namespace {
void alive(std::int64_t n) { vp_assert(tracked::live == n, "destroyed exactly once and nothing left behind"); }

// ---------------------------------------------------------------- optional
using O = optional<tracked>;
struct arb_opt {
  explicit arb_opt(char const* nm) {
    new (&r_.v) O{};
    has_ = vp::any<bool>(nm);
    n_ = vp::any<std::uint32_t>("n");
    if (has_) {
      new (&r_.v.storage_[0]) tracked{n_};
      r_.v.valid_ = true;
    }
  }
  O& operator*() { return r_.v; }
  O* operator->() { return &r_.v; }
  vp::raw<O> r_;
  bool has_;
  std::uint32_t n_;
};
void holds(O const& o, bool has, std::uint32_t n) {
  vp_assert(o.has_value() == has && static_cast<bool>(o) == has, "engaged exactly when a value was stored");
  auto thrown = false;
  std::uint32_t got = n, got2 = n;
  try {
    got = o.value().v_;
    got2 = const_cast<O&>(o).value().v_;
  } catch (std::bad_optional_access const&) {
    thrown = true;
  }
  vp_assert(thrown == !has && got == n && got2 == n, "value, or bad_optional_access");
  if (has) {
    vp_assert((*o).v_ == n && o->v_ == n && (*const_cast<O&>(o)).v_ == n && const_cast<O&>(o)->v_ == n, "the value");
    vp_assert(o->mark_ == tracked::alive, "the value is live");
  }
}
}  // namespace

OBLIGATION(optional_construct) {
  auto const x = vp::any<std::uint32_t>("x");
  {
    O none, null{std::nullopt}, val{x};
    tracked t{x};
    O copied{static_cast<tracked const&>(t)}, moved{tracked{x}}, lvalue{t};
    holds(none, false, 0);
    holds(null, false, 0);
    holds(val, true, x);
    holds(copied, true, x);
    holds(moved, true, x);
    holds(lvalue, true, x);
    alive(5);
  }
  alive(0);
}
OBLIGATION(optional_copy) {
  arb_opt a("has");
  {
    O c{static_cast<O const&>(*a)}, d{*a};
    holds(c, a.has_, a.n_);
    holds(d, a.has_, a.n_);
    holds(*a, a.has_, a.n_);
    alive(a.has_ ? 3 : 0);
  }
  holds(*a, a.has_, a.n_);
  a->~O();
  alive(0);
}
OBLIGATION(optional_copy_assign) {
  arb_opt a("has"), b("had");
  auto& r = (*b = static_cast<O const&>(*a));
  vp_assert(&r == &*b, "returns the target");
  holds(*b, a.has_, a.n_);
  holds(*a, a.has_, a.n_);
  alive(a.has_ ? 2 : 0);
  a->~O();
  holds(*b, a.has_, a.n_);
  b->~O();
  alive(0);
}
OBLIGATION(optional_move) {
  arb_opt a("has");
  {
    O c{std::move(*a)};
    holds(c, a.has_, a.n_);
    *a = O{7u};
    holds(*a, true, 7);
    holds(c, a.has_, a.n_);
  }
  a->~O();
  alive(0);
}
OBLIGATION(optional_move_assign) {
  arb_opt a("has"), b("had");
  auto& r = (*b = std::move(*a));
  vp_assert(&r == &*b, "returns the target");
  holds(*b, a.has_, a.n_);
  a->~O();
  holds(*b, a.has_, a.n_);
  b->~O();
  alive(0);
}
OBLIGATION(optional_self_assign) {
  arb_opt a("has");
  auto& r = *a;
  r = static_cast<O const&>(*a);
  holds(*a, a.has_, a.n_);
  r = std::move(*a);
  holds(*a, a.has_, a.n_);
  a->~O();
  alive(0);
}
OBLIGATION(optional_assign_value) {
  arb_opt a("has");
  auto const x = vp::any<std::uint32_t>("x");
  auto const none = vp::any<bool>("none");
  if (none) {
    *a = std::nullopt;
  } else {
    *a = tracked{x};
  }
  holds(*a, !none, none ? 0 : x);
  alive(none ? 0 : 1);
  a->~O();
  alive(0);
}
OBLIGATION(optional_scalar) {
  // an optional of a number is copied as an optional, not converted to a number
  auto const x = vp::any<std::int64_t>("x");
  optional<std::int64_t> a{x}, b{a}, c;
  c = a;
  optional<std::int64_t> d{c};
  vp_assert(*a == x && *b == x && *c == x && *d == x && d.has_value(), "copied");
  optional<bool> e{false}, f{e};
  vp_assert(f.has_value() && !*f, "an engaged false");
  optional<bool> g, h{g};
  vp_assert(!h.has_value(), "no value");
}

// ---------------------------------------------------------------- unique pointer
namespace {
template <typename U>
struct arb_ptr {
  explicit arb_ptr(char const* nm) {
    new (&r_.v) U{};
    auto const kind = vp::any_in<unsigned>(nm, 0, 2);
    n_ = vp::any<std::uint32_t>("n");
    owns_ = kind == 1;
    null_ = kind == 0;
    obj_ = null_ ? nullptr : new tracked{n_};
    if (!null_) {
      r_.v.el_ = obj_;
      r_.v.self_allocated_ = owns_;
    }
  }
  U& operator*() { return r_.v; }
  U* operator->() { return &r_.v; }
  // afterwards: deletes the borrowed object
  void done() {
    if (!owns_ && !null_) {
      vp_assert(obj_->mark_ == tracked::alive && obj_->v_ == n_, "a borrowed object is never deleted");
      delete obj_;
    }
  }
  vp::raw<U> r_;
  std::uint32_t n_;
  bool owns_, null_;
  tracked* obj_;
};
template <typename U>
void points(U const& u, tracked* p, bool owns) {
  vp_assert(u.get() == p && static_cast<bool>(u) == (p != nullptr) && (u == nullptr) == (p == nullptr) &&
                (nullptr == u) == (p == nullptr) && (u != nullptr) == (p != nullptr) && (nullptr != u) == (p != nullptr),
            "points to its object");
  if (p != nullptr) {
    vp_assert(&*u == p && u.operator->() == p && &*const_cast<U&>(u) == p && const_cast<U&>(u).operator->() == p, "access");
    vp_assert(u.self_allocated_ == owns, "owner");
    vp_assert(p->mark_ == tracked::alive, "the object is alive");
  }
}
template <typename U>
void ptr_observe() {
  arb_ptr<U> a("kind");
  auto const heap = vp_live_heap();
  points(*a, a.obj_, a.owns_);
  vp_assert(a.null_ || (*a)->v_ == a.n_, "value");
  a->~U();
  alive(a.null_ || a.owns_ ? 0 : 1);
  vp_assert(vp_live_heap() == heap - (a.owns_ ? 1 : 0), "memory released");
  a.done();
}
template <typename U>
void ptr_construct() {
  auto const x = vp::any<std::uint32_t>("x");
  auto const heap = vp_live_heap();
  {
    U none, null{nullptr};
    points(none, nullptr, false);
    points(null, nullptr, false);
    auto* p = new tracked{x};
    U owner{p};
    points(owner, p, true);
    U borrower{p, false};
    points(borrower, p, false);
    alive(1);
  }
  alive(0);
  vp_assert(vp_live_heap() == heap, "memory released");
}
template <typename U>
void ptr_move() {
  arb_ptr<U> a("kind");
  {
    U c{std::move(*a)};
    points(c, a.obj_, a.owns_);
    points(*a, nullptr, false);
    alive(a.null_ ? 0 : 1);
  }
  alive(a.null_ || a.owns_ ? 0 : 1);
  a->~U();
  alive(a.null_ || a.owns_ ? 0 : 1);
  a.done();
}
template <typename U>
void ptr_move_assign() {
  arb_ptr<U> a("kind"), b("target");
  auto& r = (*b = std::move(*a));
  vp_assert(&r == &*b, "returns the target");
  points(*b, a.obj_, a.owns_);
  points(*a, nullptr, false);
  alive((a.null_ ? 0 : 1) + (b.null_ || b.owns_ ? 0 : 1));
  a->~U();
  points(*b, a.obj_, a.owns_);
  b->~U();
  alive((a.null_ || a.owns_ ? 0 : 1) + (b.null_ || b.owns_ ? 0 : 1));
  a.done();
  b.done();
}
template <typename U>
void ptr_self_move() {
  arb_ptr<U> a("kind");
  auto& r = *a;
  r = std::move(*a);
  points(*a, a.obj_, a.owns_);
  a->~U();
  a.done();
  alive(0);
}
template <typename U>
void ptr_reset() {
  arb_ptr<U> a("kind");
  if (vp::any<bool>("by nullptr")) {
    auto& r = (*a = nullptr);
    vp_assert(&r == &*a, "returns the target");
  } else {
    a->reset();
  }
  points(*a, nullptr, false);
  alive(a.null_ || a.owns_ ? 0 : 1);
  a->reset();
  points(*a, nullptr, false);
  auto* p = new tracked{1};
  *a = U{p};
  points(*a, p, true);
  a->~U();
  a.done();
  alive(0);
}
}  // namespace
#define PTR(tag, ...)                                                \
  OBLIGATION(ptr_observe_##tag) { ptr_observe<__VA_ARGS__>(); }      \
  OBLIGATION(ptr_construct_##tag) { ptr_construct<__VA_ARGS__>(); }  \
  OBLIGATION(ptr_move_##tag) { ptr_move<__VA_ARGS__>(); }            \
  OBLIGATION(ptr_move_assign_##tag) { ptr_move_assign<__VA_ARGS__>(); } \
  OBLIGATION(ptr_self_move_##tag) { ptr_self_move<__VA_ARGS__>(); }  \
  OBLIGATION(ptr_reset_##tag) { ptr_reset<__VA_ARGS__>(); }
PTR(raw, raw::unique_ptr<tracked>)
PTR(off, offset::unique_ptr<tracked>)
OBLIGATION(ptr_make_unique) {
  auto const x = vp::any<std::uint32_t>("x");
  auto const heap = vp_live_heap();
  {
    auto a = raw::make_unique<tracked>(x);
    auto b = offset::make_unique<tracked>(x);
    points(a, a.get(), true);
    points(b, b.get(), true);
    vp_assert(a->v_ == x && b->v_ == x && a.get() != b.get(), "value");
    alive(2);
  }
  alive(0);
  vp_assert(vp_live_heap() == heap, "memory released");
}

// ---------------------------------------------------------------- tuple
namespace {
struct big {
  bool operator==(big const& o) const { return a_ == o.a_ && b_ == o.b_; }
  bool operator<(big const& o) const { return a_ < o.a_ || (a_ == o.a_ && b_ < o.b_); }
  std::uint64_t a_{0}, b_{0};
};
struct alignas(16) wide {
  std::uint8_t c_{0};
};
// elements lie inside the tuple, aligned, and do not share storage
template <typename T, std::size_t... I>
void layout(T& t, std::index_sequence<I...>) {
  auto const base = reinterpret_cast<std::uintptr_t>(&t);
  std::uintptr_t const at[] = {reinterpret_cast<std::uintptr_t>(&cista::get<I>(t))...};
  std::size_t const size[] = {sizeof(cista::get<I>(t))...};
  std::size_t const align[] = {alignof(std::decay_t<decltype(cista::get<I>(t))>)...};
  constexpr auto n = sizeof...(I);
  for (auto i = 0u; i != n; ++i) {
    vp_assert(at[i] >= base && at[i] + size[i] <= base + sizeof(T), "inside the tuple");
    vp_assert((at[i] - base) % align[i] == 0 && alignof(T) % align[i] == 0, "aligned");
    for (auto j = i + 1; j != n; ++j) {
      vp_assert(at[i] + size[i] <= at[j], "in order, no shared storage");
    }
  }
  vp_assert(((&cista::get<I>(t) == &cista::get<I>(static_cast<T const&>(t))) && ...), "const access");
}
template <typename T>
void check_layout() {
  vp::raw<T> r;
  layout(r.v, std::make_index_sequence<cista::tuple_size_v<T>>{});
}
}  // namespace
OBLIGATION(tuple_layout) {
  check_layout<cista::tuple<std::uint8_t>>();
  check_layout<cista::tuple<std::uint8_t, std::uint64_t, std::uint8_t>>();
  check_layout<cista::tuple<std::uint64_t, std::uint8_t, std::uint16_t, std::uint32_t>>();
  check_layout<cista::tuple<std::uint8_t, std::uint16_t, std::uint8_t, std::uint32_t, std::uint8_t, std::uint64_t>>();
  check_layout<cista::tuple<std::uint8_t, wide, std::uint16_t, big, std::uint8_t>>();
  check_layout<cista::tuple<wide, wide>>();
  check_layout<cista::tuple<big, std::uint8_t, big>>();
  check_layout<cista::tuple<tracked, std::uint8_t, tracked>>();
  check_layout<cista::tuple<std::uint16_t, std::uint16_t, std::uint16_t, std::uint64_t, std::uint8_t, std::uint8_t, std::uint16_t>>();
}
namespace {
using T3 = cista::tuple<std::uint8_t, tracked, std::uint64_t>;
void is(T3 const& t, std::uint8_t a, std::uint32_t b, std::uint64_t c) {
  vp_assert(cista::get<0>(t) == a && cista::get<1>(t).v_ == b && cista::get<2>(t) == c && cista::get<1>(t).mark_ == tracked::alive,
            "the value stored at each position");
}
}  // namespace
OBLIGATION(tuple_values) {
  auto a = vp::any<std::uint8_t>("a"), a2 = vp::any<std::uint8_t>("a2");
  auto b = vp::any<std::uint32_t>("b"), b2 = vp::any<std::uint32_t>("b2");
  auto c = vp::any<std::uint64_t>("c"), c2 = vp::any<std::uint64_t>("c2");
  {
    T3 d;
    is(d, 0, 0, 0);
    T3 t{std::uint8_t{a}, tracked{b}, std::uint64_t{c}};
    alive(2);
    is(t, a, b, c);
    T3 u{static_cast<T3 const&>(t)};
    is(u, a, b, c);
    is(t, a, b, c);
    alive(3);
    cista::get<0>(u) = a2;
    is(u, a2, b, c);
    cista::get<2>(u) = c2;
    cista::get<1>(u).v_ = b2;
    is(u, a2, b2, c2);
    is(t, a, b, c);
    auto& r = (t = static_cast<T3 const&>(u));
    vp_assert(&r == &t, "returns the target");
    is(t, a2, b2, c2);
    is(u, a2, b2, c2);
    T3 m{std::move(t)};
    is(m, a2, b2, c2);
    cista::get<0>(m) = a;
    auto& r2 = (d = std::move(m));
    vp_assert(&r2 == &d, "returns the target");
    is(d, a, b2, c2);
    auto& self = d;
    d = static_cast<T3 const&>(self);
    is(d, a, b2, c2);
    alive(4);
  }
  alive(0);
}
OBLIGATION(tuple_apply) {
  auto a = vp::any<std::uint8_t>("a");
  auto b = vp::any<std::uint64_t>("b");
  cista::tuple<std::uint8_t, std::uint64_t> t{std::uint8_t{a}, std::uint64_t{b}};
  auto n = 0;
  cista::apply(
      [&](auto&& x, auto&& y) {
        ++n;
        vp_assert(x == a && y == b && static_cast<void const*>(&x) == &cista::get<0>(t) &&
                      static_cast<void const*>(&y) == &cista::get<1>(t),
                  "the elements, in order");
      },
      t);
  vp_assert(n == 1, "called once");
}
namespace {
template <typename T, typename X, typename Y, typename Z>
void tuple_compare(T const& s, T const& t, X a, Y b, Z c, X a2, Y b2, Z c2) {
  auto const eq = a == a2 && b == b2 && c == c2;
  auto const lt = a < a2 || (a == a2 && (b < b2 || (b == b2 && c < c2)));
  vp_assert((s == t) == eq && (s != t) == !eq, "equal exactly when all elements are");
  vp_assert((s < t) == lt && (s > t) == (!lt && !eq), "lexicographic");
  vp_assert((s <= t) == (lt || eq) && (s >= t) == !lt, "weak lexicographic");
}
}  // namespace
OBLIGATION(tuple_order) {
  auto const a = vp::any<std::uint8_t>("a"), a2 = vp::any<std::uint8_t>("a2");
  auto const b = vp::any<std::int32_t>("b"), b2 = vp::any<std::int32_t>("b2");
  auto const c = vp::any<std::uint64_t>("c"), c2 = vp::any<std::uint64_t>("c2");
  using T = cista::tuple<std::uint8_t, std::int32_t, std::uint64_t>;
  T const s{std::uint8_t{a}, std::int32_t{b}, std::uint64_t{c}}, t{std::uint8_t{a2}, std::int32_t{b2}, std::uint64_t{c2}};
  tuple_compare(s, t, a, b, c, a2, b2, c2);
}
OBLIGATION(tuple_order_nested) {
  auto const a = vp::any<std::uint64_t>("a"), a2 = vp::any<std::uint64_t>("a2");
  auto const b = vp::any<std::uint8_t>("b"), b2 = vp::any<std::uint8_t>("b2");
  auto const c = vp::any<std::int16_t>("c"), c2 = vp::any<std::int16_t>("c2");
  using I = cista::tuple<std::uint8_t, std::int16_t>;
  using T = cista::tuple<std::uint64_t, I>;
  T const s{std::uint64_t{a}, I{std::uint8_t{b}, std::int16_t{c}}}, t{std::uint64_t{a2}, I{std::uint8_t{b2}, std::int16_t{c2}}};
  tuple_compare(s, t, a, b, c, a2, b2, c2);
}
OBLIGATION(pair_order) {
  auto const a = vp::any<std::uint64_t>("a"), a2 = vp::any<std::uint64_t>("a2");
  auto const b = vp::any<std::int8_t>("b"), b2 = vp::any<std::int8_t>("b2");
  using P = cista::pair<std::uint64_t, std::int8_t>;
  P const s{a, b}, t{a2, b2};
  tuple_compare(s, t, a, b, 0, a2, b2, 0);
  P u{s};
  u = t;
  vp_assert(u.first == a2 && u.second == b2 && u == t, "copied");
}
