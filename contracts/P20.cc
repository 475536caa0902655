// P20: a variant holds exactly the alternative last stored.
// Abstract view: nothing, or (index, value).  Every transition starts from an arbitrary state.
#include "vp.h"

#include "cista/containers/variant.h"

using namespace cista;

namespace {
// ghost-counted alternatives: construction and destruction are checked object by object
template <int N>
struct trk {
  static constexpr std::uint32_t alive = 0x600DC0DEu + N;
  static inline std::int64_t live = 0;
  trk() noexcept : v_{0}, mark_{alive} { ++live; }
  trk(std::uint32_t v) noexcept : v_{v}, mark_{alive} { ++live; }
  trk(trk const& o) noexcept : v_{o.v_}, mark_{alive} {
    vp_assert(o.mark_ == alive, "copied from a live alternative");
    ++live;
  }
  trk(trk&& o) noexcept : v_{o.v_}, mark_{alive} {
    vp_assert(o.mark_ == alive, "moved from a live alternative");
    ++live;
  }
  trk& operator=(trk const& o) noexcept {
    vp_assert(mark_ == alive && o.mark_ == alive, "assigned between live alternatives");
    v_ = o.v_;
    return *this;
  }
  trk& operator=(trk&& o) noexcept {
    vp_assert(mark_ == alive && o.mark_ == alive, "move-assigned between live alternatives");
    v_ = o.v_;
    return *this;
  }
  ~trk() noexcept {
    vp_assert(mark_ == alive, "destroyed exactly once");
    mark_ = 0xDEADDEADu;
    --live;
  }
  bool operator==(trk const& o) const { return ok(o) && v_ == o.v_; }
  bool operator!=(trk const& o) const { return ok(o) && v_ != o.v_; }
  bool operator<(trk const& o) const { return ok(o) && v_ < o.v_; }
  bool operator>(trk const& o) const { return ok(o) && v_ > o.v_; }
  bool operator<=(trk const& o) const { return ok(o) && v_ <= o.v_; }
  bool operator>=(trk const& o) const { return ok(o) && v_ >= o.v_; }
  bool ok(trk const& o) const {
    vp_assert(mark_ == alive && o.mark_ == alive, "live alternatives are compared");
    return true;
  }
  std::uint32_t v_, mark_;
};

using A = trk<1>;
using B = trk<2>;
using V = variant<std::uint8_t, A, std::int64_t, B>;
#ifdef VP_NATIVE
[[maybe_unused]] auto const set_reset = vp::reset = [] { A::live = B::live = 0; };
#endif
constexpr auto NONE = std::size_t{V::NO_VALUE};

// the abstract value of an alternative
std::int64_t num(std::uint8_t x) { return x; }
std::int64_t num(std::int64_t x) { return x; }
template <int N>
std::int64_t num(trk<N> const& x) {
  vp_assert(x.mark_ == trk<N>::alive, "the alternative is live");
  return x.v_;
}

// an arbitrary variant
struct arb {
  explicit arb(char const* nm) {
    new (&r_.v) V{};
    auto const k = vp::any_in<unsigned>(nm, 0, 4);
    idx_ = k == 4 ? NONE : k;
    n_ = 0;
    if (k == 0) {
      auto const x = vp::any<std::uint8_t>("u8");
      r_.v.idx_ = 0;
      new (&r_.v.storage_) std::uint8_t{x};
      n_ = x;
    } else if (k == 1) {
      auto const x = vp::any<std::uint32_t>("a");
      r_.v.idx_ = 1;
      new (&r_.v.storage_) A{x};
      n_ = x;
    } else if (k == 2) {
      auto const x = vp::any<std::int64_t>("i64");
      r_.v.idx_ = 2;
      new (&r_.v.storage_) std::int64_t{x};
      n_ = x;
    } else if (k == 3) {
      auto const x = vp::any<std::uint32_t>("b");
      r_.v.idx_ = 3;
      new (&r_.v.storage_) B{x};
      n_ = x;
    }
  }
  V& operator*() { return r_.v; }
  V* operator->() { return &r_.v; }
  vp::raw<V> r_;
  std::size_t idx_;
  std::int64_t n_;
};

// the variant is exactly (idx, n)
void holds(V const& v, std::size_t idx, std::int64_t n) {
  vp_assert(v.index() == idx && v.valid() == (idx != NONE) && static_cast<bool>(v) == (idx != NONE), "index");
  vp_assert(holds_alternative<std::uint8_t>(v) == (idx == 0) && holds_alternative<A>(v) == (idx == 1) &&
                holds_alternative<std::int64_t>(v) == (idx == 2) && holds_alternative<B>(v) == (idx == 3),
            "holds_alternative");
  if (idx == 0) {
    vp_assert(num(get<0>(v)) == n && num(get<std::uint8_t>(v)) == n, "value");
  } else if (idx == 1) {
    vp_assert(num(get<1>(v)) == n && num(get<A>(v)) == n, "value");
  } else if (idx == 2) {
    vp_assert(num(get<2>(v)) == n && num(get<std::int64_t>(v)) == n, "value");
  } else if (idx == 3) {
    vp_assert(num(get<3>(v)) == n && num(get<B>(v)) == n, "value");
  }
}
// exactly these tracked alternatives are alive
void alive(std::int64_t a, std::int64_t b) {
  vp_assert(A::live == a && B::live == b, "alternatives are destroyed exactly once and none is left behind");
}
std::int64_t is(std::size_t idx, std::size_t k) { return idx == k ? 1 : 0; }

// stores an alternative with index 0..3 in one of the ways `put` offers
template <typename F>
void each_alternative(F&& put) {
  auto const k = vp::any_in<unsigned>("stored", 0, 3);
  if (k == 0) {
    auto const x = vp::any<std::uint8_t>("x8");
    put(x, 0u, static_cast<std::int64_t>(x));
  } else if (k == 1) {
    auto const x = vp::any<std::uint32_t>("xa");
    put(A{x}, 1u, static_cast<std::int64_t>(x));
  } else if (k == 2) {
    auto const x = vp::any<std::int64_t>("x64");
    put(x, 2u, x);
  } else {
    auto const x = vp::any<std::uint32_t>("xb");
    put(B{x}, 3u, static_cast<std::int64_t>(x));
  }
}
}  // namespace

OBLIGATION(default_construct) {
  {
    V v;
    holds(v, NONE, 0);
  }
  alive(0, 0);
}
OBLIGATION(observe) {
  arb a("v");
  auto const& c = *a;
  holds(c, a.idx_, a.n_);
  vp_assert((get_if<0>(c) != nullptr) == (a.idx_ == 0) && (get_if<1>(c) != nullptr) == (a.idx_ == 1) &&
                (get_if<2>(c) != nullptr) == (a.idx_ == 2) && (get_if<3>(c) != nullptr) == (a.idx_ == 3),
            "get_if by index");
  vp_assert((get_if<0>(*a) != nullptr) == (a.idx_ == 0) && (get_if<1>(*a) != nullptr) == (a.idx_ == 1) &&
                (get_if<2>(*a) != nullptr) == (a.idx_ == 2) && (get_if<3>(*a) != nullptr) == (a.idx_ == 3),
            "get_if by index, mutable");
  vp_assert((get_if<std::uint8_t>(*a) != nullptr) == (a.idx_ == 0) && (get_if<A>(*a) != nullptr) == (a.idx_ == 1) &&
                (get_if<std::int64_t>(*a) != nullptr) == (a.idx_ == 2) && (get_if<B>(*a) != nullptr) == (a.idx_ == 3),
            "get_if by type");
  vp_assert((get_if<std::uint8_t>(c) != nullptr) == (a.idx_ == 0) && (get_if<A>(c) != nullptr) == (a.idx_ == 1) &&
                (get_if<std::int64_t>(c) != nullptr) == (a.idx_ == 2) && (get_if<B>(c) != nullptr) == (a.idx_ == 3),
            "get_if by type, const");
  if (a.idx_ == 1) {
    vp_assert(get_if<1>(c)->v_ == a.n_ && get_if<A>(*a) == &get<A>(*a) && get_if<1>(*a) == &get<1>(*a) && get_if<A>(c) == &get<1>(c), "the stored value");
  }
  a->~V();
  alive(0, 0);
}
OBLIGATION(apply) {
  arb a("v");
  auto const& c = *a;
  auto calls = 0;
  auto thrown = 0;
  std::size_t which = NONE;
  std::int64_t n = 0;
  auto const f = [&](auto&& x) {
    ++calls;
    using X = std::decay_t<decltype(x)>;
    which = index_of_type<X, std::uint8_t, A, std::int64_t, B>();
    n = num(x);
    return 0;
  };
  auto const how = vp::any<bool>("const");
  try {
    if (how) {
      c.apply(f);
    } else {
      (*a).apply(f);
    }
  } catch (...) {
    ++thrown;
  }
  vp_assert(calls == (a.idx_ == NONE ? 0 : 1) && thrown == (a.idx_ == NONE ? 1 : 0), "called exactly once, or no value");
  vp_assert(which == a.idx_ && (a.idx_ == NONE || n == a.n_), "called with the held alternative");
  holds(*a, a.idx_, a.n_);
  a->~V();
  alive(0, 0);
}
OBLIGATION(apply_writes) {
  arb a("v");
  vp_assume(a.idx_ != NONE);
  auto const x = vp::any<std::uint8_t>("x");
  a->apply([x](auto&& e) { e = std::decay_t<decltype(e)>(x); });
  holds(*a, a.idx_, x);
  a->~V();
  alive(0, 0);
}
OBLIGATION(construct) {
  each_alternative([](auto&& x, std::size_t idx, std::int64_t n) {
    using X = std::decay_t<decltype(x)>;
    auto const how = vp::any_in<unsigned>("how", 0, 2);
    vp::raw<V> r;
    if (how == 0) {
      new (&r.v) V{X(x)};
    } else if (how == 1) {
      X y{x};
      new (&r.v) V{y};
      vp_assert(num(y) == n, "the source keeps its value");
    } else {
      X const y{x};
      new (&r.v) V{y};
      vp_assert(num(y) == n, "the source keeps its value");
    }
    holds(r.v, idx, n);
    alive(std::is_same_v<X, A> ? 2 : 0, std::is_same_v<X, B> ? 2 : 0);
    r.v.~V();
    alive(std::is_same_v<X, A> ? 1 : 0, std::is_same_v<X, B> ? 1 : 0);
  });
  alive(0, 0);
}
OBLIGATION(assign) {
  arb a("v");
  each_alternative([&](auto&& x, std::size_t idx, std::int64_t n) {
    using X = std::decay_t<decltype(x)>;
    auto const how = vp::any_in<unsigned>("how", 0, 2);
    X y{x};
    if (how == 0) {
      auto& r = (*a = X(x));
      vp_assert(&r == &*a, "returns the target");
    } else if (how == 1) {
      auto& r = (*a = y);
      vp_assert(&r == &*a, "returns the target");
    } else {
      auto& r = (*a = static_cast<X const&>(y));
      vp_assert(&r == &*a, "returns the target");
    }
    vp_assert(num(y) == n, "the source keeps its value");
    holds(*a, idx, n);
  });
  alive(a->index() == 1, a->index() == 3);
  a->~V();
  alive(0, 0);
}
OBLIGATION(emplace) {
  arb a("v");
  auto const byidx = vp::any<bool>("by index");
  auto const k = vp::any_in<unsigned>("stored", 0, 3);
  std::int64_t n = 0;
  if (k == 0) {
    auto const x = vp::any<std::uint8_t>("x8");
    n = x;
    auto& r = byidx ? a->emplace<0>(x) : a->emplace<std::uint8_t>(x);
    vp_assert(&r == &get<0>(*a), "returns the new value");
  } else if (k == 1) {
    auto const x = vp::any<std::uint32_t>("xa");
    n = x;
    auto& r = byidx ? a->emplace<1>(x) : a->emplace<A>(x);
    vp_assert(&r == &get<1>(*a), "returns the new value");
  } else if (k == 2) {
    auto const x = vp::any<std::int64_t>("x64");
    n = x;
    auto& r = byidx ? a->emplace<2>(x) : a->emplace<std::int64_t>(x);
    vp_assert(&r == &get<2>(*a), "returns the new value");
  } else {
    auto const x = vp::any<std::uint32_t>("xb");
    n = x;
    auto& r = byidx ? a->emplace<3>(x) : a->emplace<B>(x);
    vp_assert(&r == &get<3>(*a), "returns the new value");
  }
  holds(*a, k, n);
  alive(k == 1, k == 3);
  a->~V();
  alive(0, 0);
}
OBLIGATION(copy_construct) {
  arb a("v");
  {
    V c{static_cast<V const&>(*a)};
    holds(c, a.idx_, a.n_);
    holds(*a, a.idx_, a.n_);
    alive(2 * is(a.idx_, 1), 2 * is(a.idx_, 3));
  }
  holds(*a, a.idx_, a.n_);
  a->~V();
  alive(0, 0);
}
OBLIGATION(copy_assign) {
  arb a("v"), b("w");
  auto& r = (*b = static_cast<V const&>(*a));
  vp_assert(&r == &*b, "returns the target");
  holds(*b, a.idx_, a.n_);
  holds(*a, a.idx_, a.n_);
  alive(2 * is(a.idx_, 1), 2 * is(a.idx_, 3));
  a->~V();
  holds(*b, a.idx_, a.n_);
  b->~V();
  alive(0, 0);
}
OBLIGATION(move_construct) {
  arb a("v");
  {
    V c{std::move(*a)};
    holds(c, a.idx_, a.n_);
    // the source is still valid: it can be assigned
    *a = A{7};
    holds(*a, 1, 7);
    holds(c, a.idx_, a.n_);
  }
  a->~V();
  alive(0, 0);
}
OBLIGATION(move_assign) {
  arb a("v"), b("w");
  auto& r = (*b = std::move(*a));
  vp_assert(&r == &*b, "returns the target");
  holds(*b, a.idx_, a.n_);
  *a = B{7};
  holds(*a, 3, 7);
  holds(*b, a.idx_, a.n_);
  a->~V();
  b->~V();
  alive(0, 0);
}
OBLIGATION(self_assign) {
  arb a("v");
  auto& r = *a;
  r = static_cast<V const&>(*a);
  holds(*a, a.idx_, a.n_);
  r = std::move(*a);
  holds(*a, a.idx_, a.n_);
  a->~V();
  alive(0, 0);
}
OBLIGATION(swap) {
  arb a("v"), b("w");
  a->swap(*b);
  holds(*a, b.idx_, b.n_);
  holds(*b, a.idx_, a.n_);
  alive(is(a.idx_, 1) + is(b.idx_, 1), is(a.idx_, 3) + is(b.idx_, 3));
  a->swap(*a);
  holds(*a, b.idx_, b.n_);
  a->~V();
  b->~V();
  alive(0, 0);
}
OBLIGATION(compare) {
  arb a("v"), b("w");
  auto const& x = *a;
  auto const& y = *b;
  auto const same = a.idx_ == b.idx_;
  auto const eq = same && (a.idx_ == NONE || a.n_ == b.n_);
  auto const lt = same ? (a.idx_ != NONE && a.n_ < b.n_) : a.idx_ < b.idx_;
  vp_assert((x == y) == eq && (x != y) == !eq, "equality");
  vp_assert((x < y) == lt && (x > y) == (!lt && !eq), "order");
  vp_assert((x <= y) == (lt || eq) && (x >= y) == !lt, "weak order");
  holds(x, a.idx_, a.n_);
  holds(y, b.idx_, b.n_);
}
OBLIGATION(hash) {
  using H = variant<std::uint8_t, std::uint32_t, std::int64_t>;
  H v;
  auto const k = vp::any_in<unsigned>("k", 0, 2);
  auto const x = vp::any<std::int64_t>("x");
  hash_t want;
  auto const h = hashing<std::size_t>{}(k, BASE_HASH);
  if (k == 0) {
    v = static_cast<std::uint8_t>(x);
    want = hashing<std::uint8_t>{}(static_cast<std::uint8_t>(x), h);
  } else if (k == 1) {
    v = static_cast<std::uint32_t>(x);
    want = hashing<std::uint32_t>{}(static_cast<std::uint32_t>(x), h);
  } else {
    v = x;
    want = hashing<std::int64_t>{}(x, h);
  }
  vp_assert(v.hash() == want, "the hash of the index, then of the value");
}

// ---- more alternatives than one dispatch block (sixteen) covers
namespace {
template <int N>
struct alt {
  explicit alt(std::uint32_t v) : v_{v} {}
  bool operator==(alt const& o) const { return v_ == o.v_; }
  std::uint32_t v_;
};
using W = variant<alt<0>, alt<1>, alt<2>, alt<3>, alt<4>, alt<5>, alt<6>, alt<7>, alt<8>, alt<9>, alt<10>, alt<11>,
                  alt<12>, alt<13>, alt<14>, alt<15>, alt<16>, alt<17>>;
template <int I>
void wide() {
  auto const x = vp::any<std::uint32_t>("x");
  W v{alt<I>{x}};
  int which = -1;
  std::uint32_t n = 0;
  int calls = 0;
  v.apply([&](auto&& e) {
    ++calls;
    n = e.v_;
    which = static_cast<int>(index_of_type<std::decay_t<decltype(e)>, alt<0>, alt<1>, alt<2>, alt<3>, alt<4>, alt<5>, alt<6>,
                                           alt<7>, alt<8>, alt<9>, alt<10>, alt<11>, alt<12>, alt<13>, alt<14>, alt<15>,
                                           alt<16>, alt<17>>());
  });
  vp_assert(v.index() == I && which == I && calls == 1 && n == x, "the held alternative");
  W c{v};
  vp_assert(c.index() == I && get<I>(c).v_ == x && c == v, "copied");
  alt<3> const o{5};
  c = o;
  vp_assert(c.index() == 3 && get<3>(c).v_ == 5 && (c == v) == (I == 3 && x == 5), "reassigned");
}
}  // namespace
OBLIGATION(wide_low) {
  wide<0>();
  wide<1>();
  wide<7>();
  wide<14>();
}
OBLIGATION(wide_high) {
  wide<15>();
  wide<16>();
  wide<17>();
}

// histories: random sequences of operations against the model
NATIVE(history) {
  {
    V v[3];
    struct {
      std::size_t idx = NONE;
      std::int64_t n = 0;
    } m[3];
    auto const steps = vp::any_in<unsigned>("steps", 1, 30);
    for (auto s = 0u; s != steps; ++s) {
      auto const i = vp::any_in<unsigned>("i", 0, 2), j = vp::any_in<unsigned>("j", 0, 2);
      auto const op = vp::any_in<unsigned>("op", 0, 9);
      auto const x = vp::any_in<std::uint8_t>("x", 0, 3);
      switch (op) {
        case 0: v[i] = x; m[i] = {0, x}; break;
        case 1: v[i] = A{x}; m[i] = {1, x}; break;
        case 2: v[i] = std::int64_t{-x}; m[i] = {2, -x}; break;
        case 3: { B const b{x}; v[i] = b; m[i] = {3, x}; break; }
        case 4: v[i] = v[j]; m[i] = m[j]; break;
        case 5: if (i != j) { v[i] = std::move(v[j]); m[i] = m[j]; v[j] = A{9}; m[j] = {1, 9}; } break;
        case 6: v[i].swap(v[j]); std::swap(m[i], m[j]); break;
        case 7: v[i].emplace<B>(x); m[i] = {3, x}; break;
        case 8: v[i].emplace<1>(x); m[i] = {1, x}; break;
        default: v[i] = V{}; m[i] = {NONE, 0}; break;
      }
      for (auto k = 0; k != 3; ++k) {
        holds(v[k], m[k].idx, m[k].n);
      }
      alive(is(m[0].idx, 1) + is(m[1].idx, 1) + is(m[2].idx, 1), is(m[0].idx, 3) + is(m[1].idx, 3) + is(m[2].idx, 3));
    }
  }
  alive(0, 0);
}
