// P07: a string holds exactly the text it was given, short or long.
// Abstract view: the text t[0..size).  Texts of at most 15 bytes live in the string object and end at
// the first zero character there: arbitrary texts are free of zero characters when they are that short
// (the shortened text of a short text with zero characters is the known finding kf_embedded_zero).
#include "vp.h"

#include <string>

#include "cista/containers/string.h"

using namespace cista;

namespace {
constexpr std::uint32_t MAXLEN = 1u << 30;

template <typename S>
using ch = typename S::CharT;

// an arbitrary text of n characters
template <typename C>
struct text {
  explicit text(char const* nm, std::uint32_t max = MAXLEN) {
    (void)max;
    n_ = vp::any_size<std::uint32_t>(nm, 0, max, 40);
    p_ = vp::any_array<C>(n_, nm);
#ifdef VP_NATIVE
    for (std::uint32_t i = 0; i != n_; ++i) {
      if (n_ <= 15 / sizeof(C) && p_[i] == 0) {
        p_[i] = 'z';
      }
    }
#else
    vp::each(p_, [n = n_](std::uint64_t, std::uint64_t c) { return n > 15 / sizeof(C) || c != 0; });
#endif
  }
  std::basic_string_view<C> view() const { return {p_, n_}; }
  std::uint32_t n_;
  C* p_;
};

// an arbitrary string object: empty, short, owning, or borrowing a text
template <typename S>
struct arb {
  using C = ch<S>;
  static constexpr bool is_view = std::is_same_v<S, raw::string_view> || std::is_same_v<S, offset::string_view>;
  explicit arb(char const* nm, bool may_borrow = true) : t_{nm} {
    new (&r_.v) S{};
    constexpr auto L = S::short_length_limit;
    auto const kind = vp::any_in<unsigned>("kind", 0, may_borrow ? 3 : 2);
    vp_assume(!is_view || kind != 2);
    if (kind == 0) {
      vp_assume(t_.n_ == 0);
    } else if (kind == 1) {
      vp_assume(t_.n_ <= L);
      r_.v.s_ = typename S::stack{};
#ifdef VP_NATIVE
      for (std::uint32_t i = 0; i != L; ++i) {
        auto const c = vp::any<C>("c");
        if (i < t_.n_) {
          r_.v.s_.s_[i] = t_.p_[i] = c == 0 ? C{'z'} : c;
        }
      }
#else
      // the same, without a case per length
      for (std::uint32_t i = 0; i != L; ++i) {
        auto const c = vp::any<C>("c");
        vp_assume((i < t_.n_) == (c != 0));
        r_.v.s_.s_[i] = c;
      }
      auto const* const in = r_.v.s_.s_;
      vp::each(t_.p_, [in](std::uint64_t i, std::uint64_t c) { return i >= L || c == static_cast<std::make_unsigned_t<C>>(in[i]); });
#endif
    } else if (kind == 2) {
      // a long text that was shortened by erase stays on the heap: any size
      auto* const mem = vp::any_array<C>(t_.n_, "heap");
      std::memcpy(static_cast<void*>(mem), static_cast<void const*>(t_.p_), t_.n_ * sizeof(C));
      r_.v.h_.ptr_ = mem;
      r_.v.h_.size_ = t_.n_;
      r_.v.h_.self_allocated_ = true;
    } else {
      vp_assume(t_.n_ > L);
      r_.v.h_.ptr_ = t_.p_;
      r_.v.h_.size_ = t_.n_;
    }
    owns_ = kind == 2;
    borrows_ = kind == 3;
    k_ = vp::any<std::uint32_t>("k");
    vp_index(k_);
    old_ = k_ < t_.n_ ? t_.p_[k_] : C{0};
    outside_ = static_cast<std::int64_t>(vp_live_heap()) - (owns_ ? 1 : 0);
  }
  S& operator*() { return r_.v; }
  S* operator->() { return &r_.v; }
  void unchanged() {
    vp_assert(r_.v.size() == t_.n_, "same length");
    vp_assert(k_ >= t_.n_ || r_.v.data()[k_] == old_, "same text");
  }
  void release(std::int64_t extra = 0) {
    r_.v.~S();
    vp_assert(static_cast<std::int64_t>(vp_live_heap()) == outside_ + extra, "memory released exactly once");
    vp_assert(k_ >= t_.n_ || t_.p_[k_] == old_, "the text it was made from is untouched");
  }
  text<C> t_;
  vp::raw<S> r_;
  bool owns_, borrows_;
  std::uint32_t k_;
  C old_;
  std::int64_t outside_;
};

template <typename S, typename C>
void holds(S const& s, C const* t, std::uint32_t n, std::uint32_t k) {
  vp_assert(s.size() == n && s.empty() == (n == 0), "length");
  if (k < n) {
    vp_assert(s.data()[k] == t[k] && s[k] == t[k] && s.view()[k] == t[k] && s.begin()[k] == t[k], "text");
  }
  vp_assert(s.view().size() == n && s.end() == s.begin() + n && s.view().data() == s.data(), "view, begin and end agree");
}

// ---- observers
template <typename S>
void observe() {
  arb<S> a("t");
  auto const& c = *a;
  holds(c, a.t_.p_, a.t_.n_, a.k_);
  vp_assert(c.is_short() == (!a.owns_ && !a.borrows_ && a.t_.n_ != 0) || a.t_.n_ == 0, "representation");
  using std::begin;
  using std::end;
  vp_assert(begin(c) == c.begin() && end(c) == c.end() && begin(*a) == c.begin() && end(*a) == c.end(), "begin and end");
  std::basic_string_view<ch<S>> const v = c;
  vp_assert(v.data() == c.data() && v.size() == c.size(), "conversion to a view");
  a.release();
}

// ---- making a string from a text
template <typename S>
void construct_owning() {
  text<ch<S>> t("t");
  auto const k = vp::any<std::uint32_t>("k");
  vp_index(k);
  auto const heap = vp_live_heap();
  {
    auto const how = vp::any_in<unsigned>("how", 0, 1);
    vp::raw<S> r;
    if (how == 0) {
      new (&r.v) S{t.view(), S::owning};
    } else {
      new (&r.v) S{t.p_, t.n_, S::owning};
    }
    holds(r.v, t.p_, t.n_, k);
    vp_assert(t.n_ == 0 || r.v.data() != t.p_, "independent of the text");
    r.v.~S();
  }
  vp_assert(vp_live_heap() == heap, "released");
}
template <typename S>
void construct_borrowing() {
  text<ch<S>> t("t");
  auto const k = vp::any<std::uint32_t>("k");
  vp_index(k);
  auto const heap = vp_live_heap();
  auto const old = k < t.n_ ? t.p_[k] : 0;
  {
    auto const how = vp::any_in<unsigned>("how", 0, 1);
    vp::raw<S> r;
    if (how == 0) {
      new (&r.v) S{t.view(), S::non_owning};
    } else {
      new (&r.v) S{t.p_, t.n_, S::non_owning};
    }
    holds(r.v, t.p_, t.n_, k);
    vp_assert(vp_live_heap() == heap, "allocates nothing");
    r.v.~S();
  }
  vp_assert(vp_live_heap() == heap, "frees nothing");
  vp_assert(!(k < t.n_) || t.p_[k] == old, "writes nothing");
}
template <typename S>
void from_c_string() {
  text<ch<S>> t("t");
  // the first zero character ends the text
  vp_assume(t.n_ != 0 && t.n_ <= 1000);
  t.p_[t.n_ - 1] = 0;
  vp_index(t.n_ - 1);
  S s{static_cast<ch<S> const*>(t.p_)};
  auto const len = s.size();
  auto const k = vp::any<std::uint32_t>("k");
  vp_index(k);
  vp_index(len);
  vp_assert(len < t.n_ && t.p_[len] == 0, "the text ends at a zero character");
  vp_assert(!(k < len && t.p_[k] == 0), "the first zero character");
  holds(s, t.p_, len, k);
#ifdef VP_NATIVE
  vp_assert(s == static_cast<ch<S> const*>(t.p_) && static_cast<ch<S> const*>(t.p_) == s &&
                !(s != static_cast<ch<S> const*>(t.p_)),
            "equal to the C string");
#endif
}
template <typename S>
void assign_text() {
  arb<S> a("old");
  text<ch<S>> t("t");
  auto& r = (*a = t.view());
  vp_assert(&r == &*a, "returns the target");
  holds(*a, t.p_, t.n_, a.k_);
  a.release(1);
}
template <typename S>
void assign_borrowed() {
  arb<S> a("old");
  text<ch<S>> t("t");
  auto const old = a.k_ < t.n_ ? t.p_[a.k_] : 0;
  a->set_non_owning(t.view());
  holds(*a, t.p_, t.n_, a.k_);
  vp_assert(static_cast<std::int64_t>(vp_live_heap()) == a.outside_ + 1, "the old text is released, nothing allocated");
  a.release(1);
  vp_assert(!(a.k_ < t.n_) || t.p_[a.k_] == old, "the borrowed text is untouched");
}
template <typename S>
void assign_part_of_itself() {
  arb<S> a("t");
  auto const i = vp::any<std::uint32_t>("i"), m = vp::any<std::uint32_t>("m");
  vp_assume(i <= a.t_.n_ && m <= a.t_.n_ - i && a.t_.n_ <= MAXLEN);
  // a heap text may hold zero characters that do not survive in a short string
  auto const want = a.k_ < m ? a->data()[i + a.k_] : 0;
#ifdef VP_NATIVE
  for (std::uint32_t j = 0; j != m; ++j) {
    vp_assume(m > S::short_length_limit || a->data()[i + j] != 0);
  }
#else
  auto const len = vp::enumerate<S::short_length_limit + 2>(m <= S::short_length_limit ? m : S::short_length_limit + 1);
  if (len <= S::short_length_limit) {
    for (std::uint32_t j = 0; j != len; ++j) {
      vp_assume(a->data()[i + j] != 0);
    }
  }
#endif
  *a = a->view().substr(i, m);
  vp_assert(a->size() == m, "length of the part");
  vp_assert(!(a.k_ < m) || a->data()[a.k_] == want, "text of the part");
  a.release();
}
template <typename S>
void assign_itself() {
  arb<S> a("t");
  auto& r = *a;
  r = static_cast<S const&>(*a);
  a.unchanged();
  r = static_cast<S&&>(*a);
  a.unchanged();
  a.release();
}
template <typename S>
void reset() {
  arb<S> a("t");
  a->reset();
  vp_assert(a->empty() && a->size() == 0 && a->view().empty(), "empty");
  vp_assert(static_cast<std::int64_t>(vp_live_heap()) == a.outside_, "released");
  a.release();
}

// ---- copy and move
template <typename S>
void copy() {
  arb<S> a("t");
  {
    S c{static_cast<S const&>(*a)};
    holds(c, a.t_.p_, a.t_.n_, a.k_);
    a.unchanged();
    vp_assert(a.t_.n_ == 0 || a.borrows_ || c.data() != a->data(), "independent");
  }
  a.unchanged();
  a.release();
}
template <typename S>
void copy_independent() {
  arb<S> a("t");
  S c{static_cast<S const&>(*a)};
  auto const i = vp::any<std::uint32_t>("i");
  vp_assume(i < a.t_.n_);
  auto const x = vp::any<ch<S>>("x");
  vp_assume(x != 0);
  c[i] = x;
  vp_assert(c[i] == x, "written");
  a.unchanged();
}
template <typename S>
void copy_assign() {
  arb<S> a("t"), b("u", false);
  auto& r = (*b = static_cast<S const&>(*a));
  vp_assert(&r == &*b, "returns the target");
  holds(*b, a.t_.p_, a.t_.n_, a.k_);
  a.unchanged();
  a->~S();
  vp_assert(a.borrows_ || !(a.k_ < a.t_.n_) || b->data()[a.k_] == a.old_, "independent of the source");
  b->~S();
  vp_assert(static_cast<std::int64_t>(vp_live_heap()) == b.outside_ - (a.owns_ ? 1 : 0), "memory released exactly once");
}
// whatever the text of a moved-from string is: it is there
template <typename S>
void has_text(S const& s) {
  auto const v = s.view();
  vp_assert(v.size() == s.size() && (s.size() == 0) == s.empty(), "the source is valid: one size");
  vp_assert(s.size() == 0 || vp_readable(s.data(), s.size() * sizeof(*s.data())), "the source is valid: its text is in memory");
}
template <typename S>
void move() {
  arb<S> a("t");
  {
    S c{std::move(*a)};
    holds(c, a.t_.p_, a.t_.n_, a.k_);
    // the source is valid: it has a text and can be assigned and destroyed
    has_text(*a);
    text<ch<S>> t("u");
    *a = t.view();
    holds(*a, t.p_, t.n_, a.k_);
    holds(c, a.t_.p_, a.t_.n_, a.k_);
  }
  a.release(1);
}
template <typename S>
void move_assign() {
  arb<S> a("t"), b("u", false);
  auto& r = (*b = std::move(*a));
  vp_assert(&r == &*b, "returns the target");
  holds(*b, a.t_.p_, a.t_.n_, a.k_);
  has_text(*a);
  a->~S();
  vp_assert(!(a.k_ < a.t_.n_) || b->data()[a.k_] == a.old_, "independent of the source");
  b->~S();
  vp_assert(static_cast<std::int64_t>(vp_live_heap()) == b.outside_ - (a.owns_ ? 1 : 0), "memory released exactly once");
}

// ---- editing
template <typename S>
void erase() {
  arb<S> a("t");
  auto const i = vp::any<std::uint32_t>("i"), m = vp::any<std::uint32_t>("m");
  vp_assume(i <= a.t_.n_ && m <= a.t_.n_ - i);
  auto const later = a.k_ < a.t_.n_ - m ? a.t_.p_[a.k_ + m] : 0;
  auto const before = a.k_ < a.t_.n_ ? a.t_.p_[a.k_] : 0;
  auto& r = a->erase(i, m);
  vp_assert(&r == &*a, "returns the string");
  vp_assert(a->size() == a.t_.n_ - m, "shorter by the erased part");
  if (a.k_ < a.t_.n_ - m) {
    vp_assert(a->data()[a.k_] == (a.k_ < i ? a.old_ : later), "the rest of the text");
  }
  vp_assert(!(a.k_ < a.t_.n_) || a.t_.p_[a.k_] == before, "a borrowed text is not written");
  a.release();
}

// ---- comparison: any two texts (equal up to p, then different or at an end)
template <typename S>
void compare(unsigned how) {
  using C = ch<S>;
  text<C> x("t"), y("u");
  auto const p = vp::any_size<std::uint32_t>("p", 0, MAXLEN, 40);
  vp_index(p);
  vp_assume(p <= x.n_ && p <= y.n_);
#ifdef VP_NATIVE
  for (std::uint32_t i = 0; i != p; ++i) {
    vp_assume(y.n_ > 15 || x.p_[i] != 0);
    y.p_[i] = x.p_[i];
  }
#else
  vp::each(y.p_, [p, d = x.p_](std::uint64_t i, std::uint64_t c) { return i >= p || c == static_cast<std::make_unsigned_t<C>>(d[i]); });
#endif
  vp_assume(p == x.n_ || p == y.n_ || x.p_[p] != y.p_[p]);
  auto const eq = p == x.n_ && p == y.n_;
  using U = std::make_unsigned_t<C>;
  auto const lt = p == x.n_ ? p != y.n_ : (p != y.n_ && static_cast<U>(x.p_[p]) < static_cast<U>(y.p_[p]));
  // short texts in place, long ones borrowed (the owned representation: observe, and natively)
#ifdef VP_NATIVE
  auto const o1 = vp::any<bool>("own1"), o2 = vp::any<bool>("own2");
#else
  constexpr auto o1 = false, o2 = false;
#endif
  S const s = o1 ? S{x.view(), S::owning} : S{x.view(), S::non_owning}, t = o2 ? S{y.view(), S::owning} : S{y.view(), S::non_owning};
  if (how == 0) {
    vp_assert((s == t) == eq && (s != t) == !eq, "equality");
    vp_assert((s < t) == lt && (s > t) == (!lt && !eq) && (s <= t) == (lt || eq) && (s >= t) == !lt, "order");
  } else if (how == 1) {
    auto const v = y.view();
    vp_assert((s == v) == eq && (s != v) == !eq, "equality with a view");
    vp_assert((s < v) == lt && (s > v) == (!lt && !eq) && (s <= v) == (lt || eq) && (s >= v) == !lt, "order with a view");
  } else {
    auto const v = x.view();
    vp_assert((v == t) == eq && (v != t) == !eq, "equality of a view");
    vp_assert((v < t) == lt && (v > t) == (!lt && !eq) && (v <= t) == (lt || eq) && (v >= t) == !lt, "order of a view");
  }
}
// prefixes and suffixes: agree up to p, then different or at the end
template <typename S>
void starts() {
  using C = ch<S>;
  arb<S> a("t");
  text<C> u("u");
  auto const n = a.t_.n_, m = u.n_;
  auto const p = vp::any_size<std::uint32_t>("p", 0, MAXLEN, 40);
  vp_index(p);
  vp_assume(p <= n && p <= m);
#ifdef VP_NATIVE
  for (std::uint32_t i = 0; i != p; ++i) {
    u.p_[i] = a->data()[i];
  }
#else
  auto const* const d = a->data();
  vp::each(u.p_, [p, d](std::uint64_t i, std::uint64_t c) { return i >= p || c == static_cast<std::make_unsigned_t<C>>(d[i]); });
#endif
  vp_assume(p == n || p == m || a->data()[p] != u.p_[p]);
  vp_assert(a->starts_with(u.view()) == (p == m), "starts_with a view");
  auto const x = vp::any<C>("x");
  vp_assert(a->starts_with(x) == (n != 0 && a.t_.p_[0] == x), "starts_with a character");
  vp_assert(a->ends_with(x) == (n != 0 && a.t_.p_[n - 1] == x), "ends_with a character");
}
template <typename S>
void ends() {
  using C = ch<S>;
  arb<S> a("t");
  text<C> u("u");
  auto const n = a.t_.n_, m = u.n_;
  // the last characters: equal, or different at one place
  auto const same = vp::any<bool>("same");
  auto const p = vp::any_size<std::uint32_t>("p", 0, MAXLEN, 40);
  vp_index(p);
  if (same) {
    vp_assume(m <= n);
#ifdef VP_NATIVE
    for (std::uint32_t i = 0; i != m; ++i) {
      u.p_[i] = a->data()[n - m + i];
    }
#else
    auto const* const d = a->data() + (n - m);
    vp::each(u.p_, [d](std::uint64_t i, std::uint64_t c) { return c == static_cast<std::make_unsigned_t<C>>(d[i]); });
#endif
  } else {
    vp_assume(m > n || (p < m && a->data()[n - m + p] != u.p_[p]));
  }
  vp_assert(a->ends_with(u.view()) == same, "ends_with a view");
}
}  // namespace

#define ALL(tag, ...)                                                                 \
  OBLIGATION(observe_##tag) { observe<__VA_ARGS__>(); }                               \
  OBLIGATION(construct_owning_##tag) { construct_owning<__VA_ARGS__>(); }             \
  OBLIGATION(construct_borrowing_##tag) { construct_borrowing<__VA_ARGS__>(); }       \
  OBLIGATION(assign_text_##tag) { assign_text<__VA_ARGS__>(); }                       \
  OBLIGATION(assign_borrowed_##tag) { assign_borrowed<__VA_ARGS__>(); }               \
  OBLIGATION(assign_itself_##tag) { assign_itself<__VA_ARGS__>(); }                   \
  OBLIGATION(reset_##tag) { reset<__VA_ARGS__>(); }                                   \
  OBLIGATION(copy_##tag) { copy<__VA_ARGS__>(); }                                     \
  OBLIGATION(copy_assign_##tag) { copy_assign<__VA_ARGS__>(); }                       \
  OBLIGATION(move_##tag) { move<__VA_ARGS__>(); }                                     \
  OBLIGATION(move_assign_##tag) { move_assign<__VA_ARGS__>(); }                       \
  OBLIGATION(erase_##tag) { erase<__VA_ARGS__>(); }                                   \
  OBLIGATION(compare_##tag) { compare<__VA_ARGS__>(0); }                              \
  OBLIGATION(compare_view_##tag) { compare<__VA_ARGS__>(1); }                         \
  OBLIGATION(compare_with_view_##tag) { compare<__VA_ARGS__>(2); }                    \
  OBLIGATION(starts_##tag) { starts<__VA_ARGS__>(); }                                 \
  OBLIGATION(ends_##tag) { ends<__VA_ARGS__>(); }
ALL(raw, raw::string)
ALL(off, offset::string)
OBLIGATION(assign_part_of_itself_raw) { assign_part_of_itself<raw::string>(); }
OBLIGATION(assign_part_of_itself_off) { assign_part_of_itself<offset::string>(); }
OBLIGATION(copy_independent_raw) { copy_independent<raw::string>(); }
OBLIGATION(copy_independent_off) { copy_independent<offset::string>(); }
OBLIGATION(from_c_string_raw) { from_c_string<raw::string>(); }
OBLIGATION(from_c_string_off) { from_c_string<offset::string>(); }
OBLIGATION(view_copy_raw) { copy<raw::string_view>(); }
OBLIGATION(view_copy_assign_off) { copy_assign<offset::string_view>(); }
OBLIGATION(view_assign_itself_raw) { assign_itself<raw::string_view>(); }
OBLIGATION(view_assign_itself_off) { assign_itself<offset::string_view>(); }
OBLIGATION(observe_u16) { observe<raw::u16string>(); }
OBLIGATION(construct_owning_u16) { construct_owning<raw::u16string>(); }
OBLIGATION(copy_u32) { copy<offset::u32string>(); }
OBLIGATION(assign_text_u32) { assign_text<raw::u32string>(); }
OBLIGATION(erase_u16) { erase<offset::u16string>(); }
OBLIGATION(kf_embedded_zero) {
  auto const n = vp::any_in<std::uint32_t>("n", 1, 15);
  auto* p = vp::any_array<char>(n, "t");
  raw::string s{std::string_view{p, n}};
  vp_assert(s.size() == n, "a short text with zero characters keeps its length");
}
// std::string overloads, and streams (bounded)
NATIVE(std_string) {
  text<char> t("t");
  std::string const x{t.p_, t.n_};
  raw::string a{x};
  offset::string b;
  b = x;
  raw::string_view v{x};
  vp_assert(a.str() == x && b.str() == x && v.str() == x, "made from a std::string");
  vp_assert(static_cast<std::string>(a) == x && a == std::string_view{x}, "converted back");
  raw::string c{x, raw::string::non_owning};
  vp_assert(c.view() == x && (x.size() <= 15 || c.data() == x.data()), "borrowed");
}
