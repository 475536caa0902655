// P08: a C string keeps content, length and terminator for every length.
// Abstract view: the text t[0..size); t[size] is a zero byte unless the text is borrowed.
// Texts may hold zero characters.
#include "vp.h"

#include <string>

#include "cista/containers/cstring.h"

using namespace cista;

namespace {
constexpr std::uint32_t MAXLEN = 0xFFFFFFFFu;
constexpr auto L = 15u;

using rs = basic_cstring<char const*>;
using os = basic_cstring<offset_ptr<char const>>;
using rv = basic_cstring_view<char const*>;
using ov = basic_cstring_view<offset_ptr<char const>>;
using rg = generic_cstring<char const*>;
using og = generic_cstring<offset_ptr<char const>>;

struct text {
  explicit text(char const* nm, std::uint32_t max = MAXLEN) {
    n_ = vp::any_size<std::uint32_t>(nm, 0, max, 40);
    p_ = vp::any_array<char>(n_, nm);
  }
  std::string_view view() const { return {p_, n_}; }
  std::uint32_t n_;
  char* p_;
};

// an arbitrary cstring object: short, owning, or borrowing a text
template <typename S>
struct arb {
  static constexpr bool is_view = std::is_same_v<S, rv> || std::is_same_v<S, ov>;
  explicit arb(char const* nm, bool may_borrow = true, std::uint32_t max = MAXLEN) : t_{nm, max} {
    new (&r_.v) generic_cstring<decltype(r_.v.h_.ptr_)>{};
    auto const kind = vp::any_in<unsigned>("kind", 0, may_borrow ? 2 : 1);
    vp_assume(!is_view || kind != 1);
    if (kind == 0) {
      vp_assume(t_.n_ <= L);
#ifdef VP_NATIVE
      for (std::uint32_t i = 0; i != L; ++i) {
        r_.v.s_.s_[i] = i < t_.n_ ? t_.p_[i] : 0;
      }
#else
      for (std::uint32_t i = 0; i != L; ++i) {
        auto const c = vp::any<char>("c");
        vp_assume(i < t_.n_ || c == 0);
        r_.v.s_.s_[i] = c;
      }
      auto const* const in = r_.v.s_.s_;
      vp::each(t_.p_, [in](std::uint64_t i, std::uint64_t c) { return i >= L || c == static_cast<unsigned char>(in[i]); });
#endif
      r_.v.s_.remaining_ = static_cast<std::int8_t>(L - t_.n_);
    } else if (kind == 1) {
      vp_assume(t_.n_ > L);
      auto* const mem = vp::any_array<char>(std::uint64_t{t_.n_} + 1, "heap");
      std::memcpy(mem, t_.p_, t_.n_);
      mem[t_.n_] = 0;
      r_.v.h_ = {};
      r_.v.h_.ptr_ = mem;
      r_.v.h_.size_ = t_.n_;
      r_.v.h_.self_allocated_ = true;
    } else {
      // borrowed texts have any length
      r_.v.h_ = {};
      r_.v.h_.ptr_ = t_.p_;
      r_.v.h_.size_ = t_.n_;
    }
    short_ = kind == 0;
    owns_ = kind == 1;
    borrows_ = kind == 2;
    k_ = vp::any<std::uint32_t>("k");
    vp_index(k_);
    vp_index(t_.n_);
    old_ = k_ < t_.n_ ? t_.p_[k_] : '\0';
    outside_ = static_cast<std::int64_t>(vp_live_heap()) - (owns_ ? 1 : 0);
  }
  S& operator*() { return r_.v; }
  S* operator->() { return &r_.v; }
  void unchanged() {
    vp_assert(r_.v.size() == t_.n_, "same length");
    vp_assert(k_ >= t_.n_ || r_.v.data()[k_] == old_, "same text");
    vp_assert(borrows_ || r_.v.data()[t_.n_] == 0, "still terminated");
  }
  void release(std::int64_t extra = 0) {
    r_.v.~S();
    vp_assert(static_cast<std::int64_t>(vp_live_heap()) == outside_ + extra, "memory released exactly once");
    vp_assert(k_ >= t_.n_ || t_.p_[k_] == old_, "the text it was made from is untouched");
  }
  text t_;
  vp::raw<S> r_;
  bool short_, owns_, borrows_;
  std::uint32_t k_;
  char old_;
  std::int64_t outside_;
};

template <typename S>
void holds(S const& s, char const* t, std::uint32_t n, std::uint32_t k, bool terminated) {
  vp_assert(s.size() == n && s.empty() == (n == 0), "length");
  if (k < n) {
    vp_assert(s.data()[k] == t[k] && s[k] == t[k] && s.view()[k] == t[k] && s.begin()[k] == t[k], "text");
  }
  vp_assert(s.view().size() == n && s.end() == s.begin() + n && s.view().data() == s.data() && s.c_str() == s.data(),
            "view, begin, end and c_str agree");
  vp_assert(!terminated || s.c_str()[n] == 0, "terminated by a zero byte");
}

template <typename S>
void observe() {
  arb<S> a("t");
  auto const& c = *a;
  holds(c, a.t_.p_, a.t_.n_, a.k_, !a.borrows_);
  vp_assert(c.is_short() == a.short_ && c.is_owning() == !a.borrows_, "representation");
  vp_assert(begin(c) == c.begin() && end(c) == c.end() && begin(*a) == c.begin() && end(*a) == c.end() &&
                static_cast<char const*>(a->begin()) == c.begin() && static_cast<char const*>(a->end()) == c.end(),
            "begin and end");
  std::string_view const v = c;
  vp_assert(v.data() == c.data() && v.size() == c.size(), "conversion to a view");
  if (a.k_ < a.t_.n_ && !a.borrows_) {
    auto const x = vp::any<char>("x");
    (*a)[a.k_] = x;
    vp_assert(c[a.k_] == x && c.size() == a.t_.n_ && c.data()[a.t_.n_] == 0, "a character is written in place");
  }
  a.release();
}

// ---- making a string from a text
template <typename S>
void construct_owning() {
  text t("t", MAXLEN);
  auto const k = vp::any<std::uint32_t>("k");
  vp_index(k);
  auto const heap = vp_live_heap();
  {
    S s{t.view()};
    holds(s, t.p_, t.n_, k, true);
    vp_assert(t.n_ == 0 || s.data() != t.p_, "independent of the text");
    vp_assert(s.is_owning() && s.is_short() == (t.n_ <= L), "representation");
  }
  vp_assert(vp_live_heap() == heap, "released");
}
template <typename S>
void construct_borrowing() {
  text t("t");
  auto const k = vp::any<std::uint32_t>("k");
  vp_index(k);
  auto const heap = vp_live_heap();
  auto const old = k < t.n_ ? t.p_[k] : '\0';
  {
    S s{t.view(), S::non_owning};
    holds(s, t.p_, t.n_, k, false);
    vp_assert(s.data() == t.p_ && !s.is_owning(), "the text itself");
    vp_assert(vp_live_heap() == heap, "allocates nothing");
  }
  vp_assert(vp_live_heap() == heap, "frees nothing");
  vp_assert(!(k < t.n_) || t.p_[k] == old, "writes nothing");
}
template <typename S>
void from_c_string() {
  text t("t", 1000);
  vp_assume(t.n_ != 0);
  t.p_[t.n_ - 1] = 0;
  vp_index(t.n_ - 1);
  S s{static_cast<char const*>(t.p_)};
  auto const len = s.size();
  auto const k = vp::any<std::uint32_t>("k");
  vp_index(k);
  vp_index(len);
  vp_assert(len < t.n_ && t.p_[len] == 0, "the text ends at a zero character");
  vp_assert(!(k < len && t.p_[k] == 0), "the first zero character");
  holds(s, t.p_, len, k, true);
}
template <typename S>
void assign_text() {
  arb<S> a("old");
  text t("t");
  vp_index(t.n_);
  a->set_owning(t.view());
  holds(*a, t.p_, t.n_, a.k_, true);
  vp_assert(t.n_ == 0 || a->data() != t.p_, "independent of the text");
  a.release(1);
}
template <typename S>
void assign_borrowed() {
  arb<S> a("old");
  text t("t");
  auto const old = a.k_ < t.n_ ? t.p_[a.k_] : '\0';
  a->set_non_owning(t.view());
  holds(*a, t.p_, t.n_, a.k_, false);
  vp_assert(a->data() == t.p_, "the text itself");
  vp_assert(static_cast<std::int64_t>(vp_live_heap()) == a.outside_ + 1, "the old text is released, nothing allocated");
  a.release(1);
  vp_assert(!(a.k_ < t.n_) || t.p_[a.k_] == old, "the borrowed text is untouched");
}
template <typename S>
void assign_part_of_itself() {
  arb<S> a("t");
  auto const i = vp::any<std::uint32_t>("i"), m = vp::any<std::uint32_t>("m");
  vp_assume(i <= a.t_.n_ && m <= a.t_.n_ - i);
  vp_index(m);
  auto const want = a.k_ < m ? a->data()[i + a.k_] : '\0';
  a->set_owning(a->view().substr(i, m));
  vp_assert(a->size() == m, "length of the part");
  vp_assert(!(a.k_ < m) || a->data()[a.k_] == want, "text of the part");
  vp_assert(a->data()[m] == 0, "terminated");
  a.release();
}
template <typename S>
void assign_itself() {
  arb<S> a("t", false);
  auto& r = *a;
  r = static_cast<S const&>(*a);
  a.unchanged();
  r = static_cast<S&&>(*a);
  a.unchanged();
  r.copy_from(*a);
  a.unchanged();
  a.release();
}
template <typename S>
void reset() {
  arb<S> a("t");
  a->reset();
  vp_assert(a->empty() && a->size() == 0 && a->view().empty() && a->c_str()[0] == 0, "empty");
  vp_assert(static_cast<std::int64_t>(vp_live_heap()) == a.outside_, "released");
  a.release();
}

// ---- copy and move
template <typename S>
void copy() {
  arb<S> a("t");
  {
    S c{static_cast<S const&>(*a)};
    holds(c, a.t_.p_, a.t_.n_, a.k_, !arb<S>::is_view);
    a.unchanged();
    vp_assert(a.t_.n_ == 0 || arb<S>::is_view ? a.t_.n_ == 0 || c.data() == a->data() : c.data() != a->data(), "independent, or the same text for a view");
    if (!arb<S>::is_view && a.k_ < a.t_.n_) {
      c[a.k_] = vp::any<char>("x");
      a.unchanged();
    }
  }
  a.unchanged();
  a.release();
}
template <typename S>
void copy_assign() {
  arb<S> a("t"), b("u", arb<S>::is_view);
  auto& r = (*b = static_cast<S const&>(*a));
  vp_assert(&r == &*b, "returns the target");
  holds(*b, a.t_.p_, a.t_.n_, a.k_, !arb<S>::is_view);
  a.unchanged();
  if (!arb<S>::is_view) {
    a->~S();
    vp_assert(!(a.k_ < a.t_.n_) || b->data()[a.k_] == a.old_, "independent of the source");
    b->~S();
    vp_assert(static_cast<std::int64_t>(vp_live_heap()) == b.outside_ - (a.owns_ ? 1 : 0), "memory released exactly once");
  }
}
template <typename S>
void copy_from() {
  arb<S> a("t"), b("u");
  b->copy_from(*a);
  holds(*b, a.t_.p_, a.t_.n_, a.k_, !a.borrows_);
  vp_assert(b->is_owning() == a->is_owning() && b->is_short() == a->is_short(), "same representation");
  a.unchanged();
  a->~S();
  vp_assert(!(a.k_ < a.t_.n_) || b->data()[a.k_] == a.old_, "independent of the source");
  b->~S();
  vp_assert(static_cast<std::int64_t>(vp_live_heap()) == b.outside_ - (a.owns_ ? 1 : 0), "memory released exactly once");
}
// whatever the text of a moved-from string is: it is there
template <typename S>
void has_text(S const& s) {
  auto const v = s.view();
  vp_assert(v.size() == s.size() && (s.size() == 0) == s.empty(), "the source is valid: one size");
  vp_assert(s.size() == 0 || vp_readable(s.data(), s.size()), "the source is valid: its text is in memory");
}
template <typename S>
void move() {
  arb<S> a("t");
  {
    S c{std::move(*a)};
    holds(c, a.t_.p_, a.t_.n_, a.k_, !a.borrows_);
    // the source is valid: it has a text and can be assigned and destroyed
    has_text(*a);
    text t("u");
    a->set_owning(t.view());
    holds(*a, t.p_, t.n_, a.k_, true);
    holds(c, a.t_.p_, a.t_.n_, a.k_, !a.borrows_);
  }
  a.release(1);
}
template <typename S>
void move_assign() {
  arb<S> a("t"), b("u");
  auto& r = (*b = std::move(*a));
  vp_assert(&r == &*b, "returns the target");
  holds(*b, a.t_.p_, a.t_.n_, a.k_, !a.borrows_);
  has_text(*a);
  a->~S();
  vp_assert(!(a.k_ < a.t_.n_) || b->data()[a.k_] == a.old_, "independent of the source");
  b->~S();
  vp_assert(static_cast<std::int64_t>(vp_live_heap()) == b.outside_ - (a.owns_ ? 1 : 0), "memory released exactly once");
}

// ---- comparison: any two texts (equal up to p, then different or at an end)
template <typename S>
void compare(unsigned how) {
  text x("t"), y("u");
  auto const p = vp::any_size<std::uint32_t>("p", 0, MAXLEN, 40);
  vp_index(p);
  vp_assume(p <= x.n_ && p <= y.n_);
#ifdef VP_NATIVE
  for (std::uint32_t i = 0; i != p; ++i) {
    y.p_[i] = x.p_[i];
  }
#else
  vp::each(y.p_, [p, d = x.p_](std::uint64_t i, std::uint64_t c) { return i >= p || c == static_cast<unsigned char>(d[i]); });
#endif
  vp_assume(p == x.n_ || p == y.n_ || x.p_[p] != y.p_[p]);
  auto const eq = p == x.n_ && p == y.n_;
  auto const lt = p == x.n_ ? p != y.n_
                            : (p != y.n_ && static_cast<unsigned char>(x.p_[p]) < static_cast<unsigned char>(y.p_[p]));
  // the representation does not matter: views are checked by observe
  S const s{x.view(), S::non_owning}, t{y.view(), S::non_owning};
  if (how == 0) {
    vp_assert((s == t) == eq && (s != t) == !eq, "equality");
    vp_assert((s < t) == lt && (s > t) == (!lt && !eq) && (s <= t) == (lt || eq) && (s >= t) == !lt, "order");
  } else if (how == 1) {
    auto const v = y.view();
    vp_assert((s == v) == eq && (s != v) == !eq, "equality with a view");
    vp_assert((s < v) == lt && (s > v) == (!lt && !eq) && (s <= v) == (lt || eq) && (s >= v) == !lt, "order with a view");
  } else {
    auto const v = x.view();
    vp_assert((v == t) == eq && (v != t) == !eq, "equality of a view");
    vp_assert((v < t) == lt && (v > t) == (!lt && !eq) && (v <= t) == (lt || eq) && (v >= t) == !lt, "order of a view");
  }
}
}  // namespace

#define ALL(tag, ...)                                                                 \
  OBLIGATION(observe_##tag) { observe<__VA_ARGS__>(); }                               \
  OBLIGATION(construct_owning_##tag) { construct_owning<__VA_ARGS__>(); }             \
  OBLIGATION(construct_borrowing_##tag) { construct_borrowing<__VA_ARGS__>(); }       \
  OBLIGATION(from_c_string_##tag) { from_c_string<__VA_ARGS__>(); }                   \
  OBLIGATION(assign_text_##tag) { assign_text<__VA_ARGS__>(); }                       \
  OBLIGATION(assign_borrowed_##tag) { assign_borrowed<__VA_ARGS__>(); }               \
  OBLIGATION(assign_part_##tag) { assign_part_of_itself<__VA_ARGS__>(); }             \
  OBLIGATION(assign_itself_##tag) { assign_itself<__VA_ARGS__>(); }                   \
  OBLIGATION(reset_##tag) { reset<__VA_ARGS__>(); }                                   \
  OBLIGATION(copy_##tag) { copy<__VA_ARGS__>(); }                                     \
  OBLIGATION(copy_assign_##tag) { copy_assign<__VA_ARGS__>(); }                       \
  OBLIGATION(copy_from_##tag) { copy_from<__VA_ARGS__>(); }                           \
  OBLIGATION(move_##tag) { move<__VA_ARGS__>(); }                                     \
  OBLIGATION(move_assign_##tag) { move_assign<__VA_ARGS__>(); }                       \
  OBLIGATION(compare_##tag) { compare<__VA_ARGS__>(0); }                              \
  OBLIGATION(compare_view_##tag) { compare<__VA_ARGS__>(1); }                         \
  OBLIGATION(compare_with_view_##tag) { compare<__VA_ARGS__>(2); }
ALL(raw, rs)
ALL(off, os)
OBLIGATION(view_observe_raw) { observe<rv>(); }
OBLIGATION(view_observe_off) { observe<ov>(); }
OBLIGATION(view_copy_raw) { copy<rv>(); }
OBLIGATION(view_copy_off) { copy<ov>(); }
OBLIGATION(view_copy_assign_raw) { copy_assign<rv>(); }
OBLIGATION(view_copy_assign_off) { copy_assign<ov>(); }
OBLIGATION(view_compare_off) { compare<ov>(0); }

NATIVE(std_string) {
  text t("t");
  std::string const x{t.p_, t.n_};
  rs a{x};
  os b{x};
  b = x;
  rv v{x};
  vp_assert(a.str() == x && b.str() == x && v.str() == x, "made from a std::string");
  vp_assert(static_cast<std::string>(a) == x && a == std::string_view{x}, "converted back");
  rs c{x, rs::non_owning};
  vp_assert(c.view() == x && c.data() == x.data(), "borrowed");
  auto const z = std::string{x.c_str()};
  a = x.c_str();
  vp_assert(a.view() == z && a == x.c_str() && x.c_str() == a && !(a != x.c_str()) && !(a < x.c_str()) && a <= x.c_str() && a >= x.c_str() && !(a > x.c_str()),
            "C string");
}
NATIVE(long_length) {
  // more than 2 GiB: the length is not narrowed (skipped most of the time)
  vp_assume(vp::any_in<unsigned>("once", 0, 2000) == 0);
  auto const n = (1u << 31) + vp::any_in<std::uint32_t>("n", 0, 1000);
  auto* p = static_cast<char*>(std::malloc(n));
  p[0] = 'a';
  p[n - 1] = 'z';
  rs s{std::string_view{p, n}, rs::non_owning};
  vp_assert(s.size() == n && s[n - 1] == 'z' && s.view().size() == n, "long text");
  std::free(p);
}
