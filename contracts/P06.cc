// P06: a vector behaves as the sequence its operations describe.
// Abstract view: the sequence v[0..size).  Arbitrary vectors: any size, capacity, content; storage
// owned or borrowed.  `tracked` elements carry ghost state that makes construction, destruction and
// use of each object checked.
#include "vp.h"
#include "arb.h"

#include "cista/containers/vector.h"

using namespace cista;
using vp::tracked;
using vp::val;

namespace {
constexpr std::uint64_t MAXN = 1u << 30;

template <typename V>
struct state {
  using T = typename V::value_type;
  using S = typename V::size_type;
  explicit state(bool may_borrow = true, S max = static_cast<S>(MAXN)) {
    owned_ = may_borrow ? vp::any<bool>("owned") : true;
    vp::arb_vector(r_, max, owned_);
    n_ = r_.v.used_size_;
    cap_ = r_.v.allocated_size_;
    borrowed_block_ = !owned_ && cap_ != 0;
    k_ = vp::any<S>("k");
    vp_index(k_);
    has_k_ = k_ < n_;
    old_ = has_k_ ? val(r_.v.begin()[k_]) : 0;
    outside_ = static_cast<std::int64_t>(vp_live_heap()) - (cap_ != 0 ? 1 : 0);
    tracked_before_ = tracked::live - n_;
  }
  V& operator*() { return r_.v; }
  V* operator->() { return &r_.v; }
  // destroying the vector releases what it owns exactly once, and nothing else
  void release() {
    auto const owns = r_.v.self_allocated_;
    auto const left = r_.v.used_size_;
    r_.v.~V();
    vp_assert(static_cast<std::int64_t>(vp_live_heap()) == outside_ + (borrowed_block_ ? 1 : 0), "memory released exactly once");
    if constexpr (std::is_same_v<T, tracked>) {
      vp_assert(tracked::live == tracked_before_ + (owns ? 0 : left), "elements destroyed exactly once");
    }
  }
  void live(std::int64_t expect) {
    if constexpr (std::is_same_v<T, tracked>) {
      vp_assert(tracked::live == tracked_before_ + expect, "live elements are exactly the contained ones");
    }
  }
  vp::raw<V> r_;
  bool owned_, has_k_, borrowed_block_;
  S n_, cap_, k_;
  std::uint32_t old_;
  std::int64_t outside_, tracked_before_;
};

template <typename V>
void append() {
  using T = typename V::value_type;
  state<V> s;
  auto const x = vp::any<std::uint32_t>("x");
  auto const how = vp::any_in<unsigned>("how", 0, 2);
  {
    T const t{static_cast<T>(x)};
    T t2{static_cast<T>(x)};
    if (how == 0) {
      s->push_back(t);
    } else if (how == 1) {
      s->push_back(std::move(t2));
    } else {
      auto& r = s->emplace_back(t);
      vp_assert(&r == s->begin() + s.n_, "emplace_back returns the new element");
    }
  }
  vp_assert(s->size() == s.n_ + 1, "one more element");
  vp_assert(val((*s)[s.n_]) == val(T(x)), "the new last element");
  vp_assert(val(s->back()) == val(T(x)), "back");
  vp_assert(!s.has_k_ || val((*s)[s.k_]) == s.old_, "the other elements stay");
  vp::check_vector(*s);
  s.live(s.n_ + 1);
  s.release();
}
template <typename V>
void append_own_element() {
  using T = typename V::value_type;
  state<V> s;
  auto const i = vp::any<typename V::size_type>("i");
  vp_assume(i < s.n_);
  auto const x = val((*s)[i]);
  auto const how = vp::any_in<unsigned>("how", 0, 1);
  if (how == 0) {
    s->push_back((*s)[i]);
  } else {
    s->emplace_back(static_cast<T const&>((*s)[i]));
  }
  vp_assert(s->size() == s.n_ + 1 && val((*s)[s.n_]) == x, "a copy of the element is appended");
  vp_assert(!s.has_k_ || val((*s)[s.k_]) == s.old_, "the other elements stay");
  s.live(s.n_ + 1);
  s.release();
}
template <typename V>
void pop() {
  state<V> s;
  vp_assume(s.n_ != 0);
  s->pop_back();
  vp_assert(s->size() == s.n_ - 1, "one element less");
  vp_assert(!(s.k_ < s.n_ - 1) || val((*s)[s.k_]) == s.old_, "the other elements stay");
  vp::check_vector(*s);
  s.live(s.n_ - 1);
}
template <typename V>
void clear() {
  state<V> s;
  s->clear();
  vp_assert(s->size() == 0 && s->empty() && s->begin() == s->end(), "empty");
  vp::check_vector(*s);
  s.live(0);
  s.release();
}
template <typename V>
void reserve() {
  state<V> s;
  auto const m = vp::any_size<typename V::size_type>("m", 0, static_cast<typename V::size_type>(MAXN));
  s->reserve(m);
  vp_assert(s->size() == s.n_, "size stays");
  vp_assert(s->allocated_size_ >= m && s->allocated_size_ >= s.cap_, "capacity reached");
  vp_assert(!s.has_k_ || val((*s)[s.k_]) == s.old_, "content stays");
  vp::check_vector(*s);
  s.live(s.n_);
  s.release();
}
template <typename V>
void resize() {
  using T = typename V::value_type;
  state<V> s;
  auto const m = vp::any_size<typename V::size_type>("m", 0, static_cast<typename V::size_type>(MAXN));
  auto const with = vp::any<bool>("with");
  auto const x = vp::any<std::uint32_t>("x");
  if (with) {
    s->resize(m, T(x));
  } else {
    s->resize(m);
  }
  vp_assert(s->size() == m, "requested size");
  if (s.k_ < m) {
    vp_assert(val((*s)[s.k_]) == (s.has_k_ ? s.old_ : with ? val(T(x)) : 0), "old content, then the initial value");
  }
  vp::check_vector(*s);
  s.live(m);
  s.release();
}
template <typename V>
void copy_construct() {
  state<V> s;
  auto const before = static_cast<std::int64_t>(vp_live_heap());
  {
    V c{*s};
    vp_assert(c.size() == s.n_, "same size");
    vp_assert(!s.has_k_ || (val(c[s.k_]) == s.old_ && val((*s)[s.k_]) == s.old_), "same elements, source unchanged");
    vp_assert(s.n_ == 0 || c.begin() != s->begin(), "independent storage");
    vp::check_vector(c);
    s.live(2 * static_cast<std::int64_t>(s.n_));
  }
  vp_assert(static_cast<std::int64_t>(vp_live_heap()) == before, "the copy releases its memory");
  s.live(s.n_);
  vp_assert(!s.has_k_ || val((*s)[s.k_]) == s.old_, "the source does not depend on the copy");
  s.release();
}
template <typename V>
void move_construct() {
  state<V> s;
  {
    V c{std::move(*s)};
    vp_assert(c.size() == s.n_, "same size");
    vp_assert(!s.has_k_ || val(c[s.k_]) == s.old_, "same elements");
    vp_assert(s->size() == 0 && s->empty() && s->begin() == s->end(), "the source is empty");
    vp::check_vector(c);
    s.live(s.n_);
    auto const x = vp::any<std::uint32_t>("x");
    s->push_back(typename V::value_type(x));
    vp_assert(s->size() == 1 && val((*s)[0]) == val(typename V::value_type(x)), "the source is usable");
    vp_assert(!s.has_k_ || val(c[s.k_]) == s.old_, "independent");
    s->~V();
    new (&*s) V{};
  }
  vp_assert(static_cast<std::int64_t>(vp_live_heap()) == s.outside_ + (s.borrowed_block_ ? 1 : 0), "released exactly once");
  s.live(s.borrowed_block_ ? s.n_ : 0);
}
template <typename V>
void copy_assign() {
  using T = typename V::value_type;
  state<V> s(false);
  vp::raw<V> o;
  auto const t0 = tracked::live;
  vp::arb_vector(o, static_cast<typename V::size_type>(MAXN), true);
  tracked::live += t0;
  auto const m = o.v.used_size_;
  auto const has = s.k_ < m;
  auto const ov = has ? val(o.v.begin()[s.k_]) : 0;
  auto& r = (*s = o.v);
  vp_assert(&r == &*s, "returns the target");
  vp_assert(s->size() == m && o.v.size() == m, "size of the source");
  vp_assert(!has || (val((*s)[s.k_]) == ov && val(o.v[s.k_]) == ov), "elements of the source, which is unchanged");
  vp::check_vector(*s);
  if constexpr (std::is_same_v<T, tracked>) {
    vp_assert(tracked::live == s.tracked_before_ + 2 * static_cast<std::int64_t>(m), "old elements destroyed");
  }
  o.v.~V();
  vp_assert(!has || val((*s)[s.k_]) == ov, "independent of the source");
  s->~V();
  s.live(0);
  vp_assert(static_cast<std::int64_t>(vp_live_heap()) == s.outside_, "memory released exactly once");
}
template <typename V>
void self_assign() {
  state<V> s;
  auto& v = *s;
  v = static_cast<V const&>(v);
  vp_assert(v.size() == s.n_ && (!s.has_k_ || val(v[s.k_]) == s.old_), "self assignment changes nothing");
  s.live(s.n_);
  s.release();
}
template <typename V>
void move_assign() {
  state<V> s(false);
  vp::raw<V> o;
  auto const t0 = tracked::live;
  vp::arb_vector(o, static_cast<typename V::size_type>(MAXN), true);
  tracked::live += t0;
  auto const m = o.v.used_size_;
  auto const has = s.k_ < m;
  auto const ov = has ? val(o.v.begin()[s.k_]) : 0;
  auto& r = (*s = std::move(o.v));
  vp_assert(&r == &*s, "returns the target");
  vp_assert(s->size() == m, "size of the source");
  vp_assert(!has || val((*s)[s.k_]) == ov, "elements of the source");
  vp::check_vector(*s);
  vp::check_vector(o.v);
  if constexpr (std::is_same_v<typename V::value_type, tracked>) {
    vp_assert(tracked::live == s.tracked_before_ + static_cast<std::int64_t>(m) + o.v.used_size_, "no element lost");
  }
  o.v.~V();
  vp_assert(!has || val((*s)[s.k_]) == ov, "independent of the source");
  s->~V();
  s.live(0);
  vp_assert(static_cast<std::int64_t>(vp_live_heap()) == s.outside_, "memory released exactly once");
}
template <typename V>
void swap() {
  using std::swap;
  state<V> s(false);
  vp::raw<V> o;
  auto const t0 = tracked::live;
  vp::arb_vector(o, static_cast<typename V::size_type>(MAXN), true);
  tracked::live += t0;
  auto const m = o.v.used_size_;
  auto const has = s.k_ < m;
  auto const ov = has ? val(o.v.begin()[s.k_]) : 0;
  swap(*s, o.v);
  vp_assert(s->size() == m && o.v.size() == s.n_, "sizes swapped");
  vp_assert(!has || val((*s)[s.k_]) == ov, "elements swapped");
  vp_assert(!s.has_k_ || val(o.v[s.k_]) == s.old_, "elements swapped back");
  o.v.~V();
  s->~V();
  s.live(0);
  vp_assert(static_cast<std::int64_t>(vp_live_heap()) == s.outside_, "memory released exactly once");
}
template <typename V>
void set_range() {
  using T = typename V::value_type;
  state<V> s;
  auto const m = vp::any_size<std::uint64_t>("m", 0, MAXN);
  auto* src = vp::any_array<std::uint32_t>(m, "src");
  auto const has = s.k_ < m;
  auto const want = has ? val(T(src[s.k_])) : 0;
  s->set(src, src + m);
  vp_assert(s->size() == m, "size of the range");
  vp_assert(!has || val((*s)[s.k_]) == want, "elements of the range");
  vp::check_vector(*s);
  s.live(m);
}
template <typename V>
void construct() {
  using T = typename V::value_type;
  using S = typename V::size_type;
  tracked::live = 0;
  auto const heap = vp_live_heap();
  auto const k = vp::any<S>("k");
  auto const x = vp::any<std::uint32_t>("x"), y = vp::any<std::uint32_t>("y");
  auto const n = vp::any_size<S>("n", 0, static_cast<S>(MAXN));
  {
    V d;
    vp_assert(d.size() == 0 && d.empty() && d.begin() == d.end() && d.cbegin() == d.cend(), "default is empty");
    V e{T(x), T(y), T(x)};
    vp_assert(e.size() == 3 && val(e[0]) == val(T(x)) && val(e[1]) == val(T(y)) && val(e[2]) == val(T(x)), "list");
    V c(n, T(x));
    vp_assert(c.size() == n && !(k < n && val(c[k]) != val(T(x))), "n copies");
    vp::check_vector(c);
  }
  vp_assert(vp_live_heap() == heap && tracked::live == 0, "released");
  {
    V c(n);
    vp_assert(c.size() == n && !(k < n && val(c[k]) != 0), "n value-initialised elements");
    vp::check_vector(c);
  }
  vp_assert(vp_live_heap() == heap && tracked::live == 0, "released");
  auto const m = vp::any_size<std::uint64_t>("m", 0, MAXN);
  auto* src = vp::any_array<std::uint32_t>(m, "src");
  {
    V c(src, src + m);
    vp_assert(c.size() == m && !(k < m && val(c[k]) != val(T(src[k]))), "range");
    vp::check_vector(c);
  }
  vp_assert(vp_live_heap() == heap + 1 && tracked::live == 0, "released");
}
template <typename V>
void access() {
  state<V> s;
  auto& v = *s;
  auto const& c = v;
  vp_assert(v.size() == s.n_ && v.empty() == (s.n_ == 0), "size and empty");
  vp_assert(v.begin() == c.begin() && v.end() == c.end() && v.cbegin() == c.begin() && v.cend() == c.end() &&
                v.data() == c.data() && v.data() == v.begin() && begin(v) == v.begin() && end(v) == v.end() &&
                begin(c) == v.begin() && end(c) == v.end(),
            "iterators agree");
  vp_assert(static_cast<std::uint64_t>(v.end() - v.begin()) == s.n_, "iteration length");
  bool t1 = false, t2 = false;
  typename V::value_type const *p1 = nullptr, *p2 = nullptr;
  try {
    p1 = &v.at(s.k_);
  } catch (std::out_of_range const&) {
    t1 = true;
  }
  try {
    p2 = &c.at(s.k_);
  } catch (std::out_of_range const&) {
    t2 = true;
  }
  vp_assert(t1 == !s.has_k_ && t2 == !s.has_k_, "at rejects exactly the indices out of range");
  if (s.has_k_) {
    vp_assert(p1 == v.begin() + s.k_ && p2 == p1 && &v[s.k_] == p1 && &c[s.k_] == p1, "element k");
    vp_assert(&*(v.rbegin() + static_cast<std::ptrdiff_t>(s.n_ - 1 - s.k_)) == p1, "reverse iteration");
    vp_assert(v.rend() - v.rbegin() == static_cast<std::ptrdiff_t>(s.n_), "reverse iteration length");
    vp_assert(v.contains(p1) && v.index_of(p1) == s.k_, "contains and index_of");
    vp_assert(&v.front() == v.begin() && &c.front() == v.begin() && &v.back() == v.end() - 1 && &c.back() == v.end() - 1,
              "front and back");
  }
  vp_assert(!v.contains(v.end()), "the end is not contained");
}
template <typename V>
void compare() {
  // any two sequences: a common prefix of p elements, then a difference or an end
  using T = typename V::value_type;
  using S = typename V::size_type;
  auto const n = vp::any_size<S>("n", 0, static_cast<S>(MAXN)), m = vp::any_size<S>("m", 0, static_cast<S>(MAXN));
  auto* x = vp::any_array<T>(n, "x");
  auto* y = vp::any_array<T>(m, "y");
  auto const p = vp::any_size<S>("p", 0, static_cast<S>(MAXN));
  vp_assume(p <= n && p <= m);
  vp_index(p);
  std::memcpy(static_cast<void*>(x), static_cast<void const*>(y), p * sizeof(T));
  vp_assume(p == n || p == m || x[p] != y[p]);
  vp::raw<V> a, b;
  new (&a.v) V{};
  new (&b.v) V{};
  a.v.el_ = x;
  a.v.used_size_ = a.v.allocated_size_ = n;
  b.v.el_ = y;
  b.v.used_size_ = b.v.allocated_size_ = m;
  auto const eq = p == n && p == m;
  auto const lt = p == n ? p != m : (p != m && x[p] < y[p]);
  vp_assert((a.v == b.v) == eq, "==");
  vp_assert((a.v != b.v) == !eq, "!=");
  vp_assert((a.v < b.v) == lt, "<");
  vp_assert((a.v > b.v) == (!lt && !eq), ">");
  vp_assert((a.v <= b.v) == (lt || eq), "<=");
  vp_assert((a.v >= b.v) == !lt, ">=");
}
template <typename V>
void erase_one() {
  state<V> s;
  auto const i = vp::any<typename V::size_type>("i");
  vp_assume(i < s.n_);
  auto const next = s.k_ + 1 < s.n_ && s.k_ + 1 != 0 ? val((*s)[s.k_ + 1]) : 0;
  auto* r = s->erase(s->begin() + i);
  vp_assert(s->size() == s.n_ - 1, "one element less");
  vp_assert(r == s->begin() + i, "returns the position of the next element");
  if (s.k_ < s.n_ - 1) {
    vp_assert(val((*s)[s.k_]) == (s.k_ < i ? s.old_ : next), "the other elements in order");
  }
  s.live(s.n_ - 1);
  vp::check_vector(*s);
}
template <typename V>
void erase_range() {
  state<V> s;
  auto const i = vp::any<typename V::size_type>("i"), j = vp::any<typename V::size_type>("j");
  vp_assume(i <= j && j <= s.n_ && s.n_ != 0);
  auto const d = j - i;
  auto const later = s.k_ < s.n_ - d ? val((*s)[s.k_ + d]) : 0;
  auto* r = s->erase(s->begin() + i, s->begin() + j);
  vp_assert(s->size() == s.n_ - d, "exactly the range is removed");
  vp_assert(r == s->begin() + i, "returns the position behind the removed elements");
  if (s.k_ < s.n_ - d) {
    vp_assert(val((*s)[s.k_]) == (s.k_ < i ? s.old_ : later), "the other elements in order");
  }
  s.live(s.n_ - d);
  vp::check_vector(*s);
}
template <typename V>
void insert_one() {
  using T = typename V::value_type;
  state<V> s;
  auto const i = vp::any<typename V::size_type>("i");
  vp_assume(i <= s.n_);
  auto const prev = s.k_ != 0 && s.k_ <= s.n_ ? val(s->begin()[s.k_ - 1]) : 0;
  auto const x = vp::any<std::uint32_t>("x");
  auto* r = s->insert(s->begin() + i, T(x));
  vp_assert(s->size() == s.n_ + 1, "one more element");
  vp_assert(r == s->begin() + i, "returns the inserted element");
  if (s.k_ <= s.n_) {
    vp_assert(val((*s)[s.k_]) == (s.k_ < i ? s.old_ : s.k_ == i ? val(T(x)) : prev), "inserted in order");
  }
  s.live(s.n_ + 1);
  vp::check_vector(*s);
}
template <typename V>
void insert_copies() {
  using T = typename V::value_type;
  using S = typename V::size_type;
  state<V> s;
  auto const i = vp::any<S>("i");
  auto const m = vp::any_size<S>("m", 0, static_cast<S>(MAXN));
  vp_assume(i <= s.n_);
  auto const prev = s.k_ >= m && s.k_ - m < s.n_ ? val(s->begin()[s.k_ - m]) : 0;
  auto const x = vp::any<std::uint32_t>("x");
  {
    T const t(x);
    auto* r = s->insert(s->begin() + i, m, t);
    vp_assert(r == s->begin() + i, "returns the first inserted element");
  }
  vp_assert(s->size() == s.n_ + m, "m more elements");
  if (s.k_ < s.n_ + m) {
    vp_assert(val((*s)[s.k_]) == (s.k_ < i ? s.old_ : s.k_ - i < m ? val(T(x)) : prev), "inserted in order");
  }
  s.live(s.n_ + m);
  vp::check_vector(*s);
}
template <typename V>
void insert_range() {
  using T = typename V::value_type;
  using S = typename V::size_type;
  state<V> s;
  auto const i = vp::any<S>("i");
  auto const m = vp::any_size<S>("m", 0, static_cast<S>(MAXN));
  auto* src = vp::any_array<std::uint32_t>(m, "src");
  vp_assume(i <= s.n_);
  auto const prev = s.k_ >= m && s.k_ - m < s.n_ ? val(s->begin()[s.k_ - m]) : 0;
  auto* r = s->insert(s->begin() + i, src, src + m);
  vp_assert(r == s->begin() + i, "returns the first inserted element");
  vp_assert(s->size() == s.n_ + m, "m more elements");
  if (s.k_ < s.n_ + m) {
    vp_assert(val((*s)[s.k_]) == (s.k_ < i ? s.old_ : s.k_ - i < m ? val(T(src[s.k_ - i])) : prev), "inserted in order");
  }
  s.live(s.n_ + m);
  vp::check_vector(*s);
}
// small size type: all lengths up to the largest representable one
template <typename V>
void narrow() {
  using S = typename V::size_type;
  state<V> s(false, static_cast<S>(~S{0}));
  auto const m = vp::any<S>("m");
  s->reserve(m);
  vp_assert(s->allocated_size_ >= m && s->size() == s.n_, "capacity reached");
  vp_assert(!s.has_k_ || val((*s)[s.k_]) == s.old_, "content stays");
  vp::check_vector(*s);
  s.release();
}
using key = strong<std::uint32_t, struct key_tag>;
using narrow_u8 = basic_vector<std::uint32_t, raw::ptr, false, std::uint8_t>;
using narrow_u16 = basic_vector<std::uint32_t, offset::ptr, false, std::uint16_t>;
}  // namespace

#define OPS(tag, ...)                                            \
  OBLIGATION(append_##tag) { append<__VA_ARGS__>(); }            \
  OBLIGATION(append_own_##tag) { append_own_element<__VA_ARGS__>(); } \
  OBLIGATION(pop_##tag) { pop<__VA_ARGS__>(); }                  \
  OBLIGATION(clear_##tag) { clear<__VA_ARGS__>(); }              \
  OBLIGATION(reserve_##tag) { reserve<__VA_ARGS__>(); }          \
  OBLIGATION(resize_##tag) { resize<__VA_ARGS__>(); }            \
  OBLIGATION(copy_construct_##tag) { copy_construct<__VA_ARGS__>(); } \
  OBLIGATION(move_construct_##tag) { move_construct<__VA_ARGS__>(); } \
  OBLIGATION(copy_assign_##tag) { copy_assign<__VA_ARGS__>(); }  \
  OBLIGATION(self_assign_##tag) { self_assign<__VA_ARGS__>(); }  \
  OBLIGATION(move_assign_##tag) { move_assign<__VA_ARGS__>(); }  \
  OBLIGATION(swap_##tag) { swap<__VA_ARGS__>(); }                \
  OBLIGATION(set_range_##tag) { set_range<__VA_ARGS__>(); }      \
  OBLIGATION(construct_##tag) { construct<__VA_ARGS__>(); }      \
  OBLIGATION(access_##tag) { access<__VA_ARGS__>(); }            \
  OBLIGATION(erase_one_##tag) { erase_one<__VA_ARGS__>(); }      \
  OBLIGATION(erase_range_##tag) { erase_range<__VA_ARGS__>(); }  \
  OBLIGATION(insert_one_##tag) { insert_one<__VA_ARGS__>(); }    \
  OBLIGATION(insert_range_##tag) { insert_range<__VA_ARGS__>(); }
OPS(raw_u32, raw::vector<std::uint32_t>)
OPS(off_u32, offset::vector<std::uint32_t>)
OPS(raw_trk, raw::vector<tracked>)
OPS(off_trk, offset::vector<tracked>)
OBLIGATION(insert_copies_raw_u16) { insert_copies<raw::vector<std::uint16_t>>(); }
OBLIGATION(insert_copies_off_u16) { insert_copies<offset::vector<std::uint16_t>>(); }
OBLIGATION(insert_copies_raw_trk) { insert_copies<raw::vector<tracked>>(); }
OBLIGATION(insert_copies_off_trk) { insert_copies<offset::vector<tracked>>(); }
OBLIGATION(compare_raw_u32) { compare<raw::vector<std::uint32_t>>(); }
OBLIGATION(compare_off_u32) { compare<offset::vector<std::uint32_t>>(); }
OBLIGATION(compare_raw_u8) { compare<raw::vector<std::uint8_t>>(); }
OBLIGATION(compare_off_i16) { compare<offset::vector<std::int16_t>>(); }
OBLIGATION(narrow_size_u8) { narrow<narrow_u8>(); }
OBLIGATION(narrow_size_u16) { narrow<narrow_u16>(); }
