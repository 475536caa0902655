// P14: a vector of vectors keeps every bucket as its own sequence.
// Abstract view: bucket b (b < n) is data_[start(b) .. start(b + 1)).  Representation invariant:
// no start entries at all (never used), or start(0) = 0 <= ... <= start(n) = data_.size().
// Arbitrary objects: any number of buckets, any starts, any content.  The invariant is used at an
// arbitrary bucket and at the bucket operated on, and is re-established at an arbitrary bucket.
#include "vp.h"
#include "arb.h"
#include "vec_contracts.h"

#include <string>
#include <vector>

#include "cista/containers/string.h"
#include "cista/containers/vecvec.h"
#include "cista/strong.h"

using namespace cista;

VEC_CONTRACTS(ru32, raw::vector<std::uint32_t>)
VEC_CONTRACTS(ou32, offset::vector<std::uint32_t>)

namespace {
using S = std::uint32_t;
using K = strong<S, struct vv_key_>;
constexpr S MAXN = 1u << 28;

using rvv = raw::vecvec<K, std::uint32_t>;
using ovv = offset::vecvec<K, std::uint32_t>;
using pvv = raw::vecvec<S, std::uint32_t>;  // plain index as key

template <typename V>
void arb_vec(V& v, S n, S spare, char const* nm) {
  using T = typename V::value_type;
  new (&v) V{};
  auto const cap = n + spare;
  {
    vp_assume(cap != 0);
    v.el_ = static_cast<T*>(vp_any_mem(static_cast<std::uint64_t>(cap) * sizeof(T), sizeof(T), 16, nm));
    v.used_size_ = n;
    v.allocated_size_ = cap;
    v.self_allocated_ = true;
  }
}

// an arbitrary vector of vectors; b_ is an arbitrary bucket, j_ an arbitrary position in it
template <typename VV>
struct state {
  using key = typename VV::key;
  explicit state(bool nonempty = false) {
    // never used; starts but no data storage yet; arbitrary; cleared
    auto const kind = vp::enumerate<4>(vp::any_in<unsigned>("kind", 0, 3));
    vp_assume(!nonempty || kind == 1 || kind == 2);
    used_ = kind == 1 || kind == 2;
    n_ = used_ ? vp::any_size<S>("buckets", nonempty ? 1 : 0, MAXN, 6) : 0;
    m_ = kind == 2 ? vp::any_size<S>("elements", 0, MAXN, 20) : 0;

    if (kind >= 2) {
      arb_vec(r_.v.data_, m_, vp::any_size<S>("spare", 0, 1u << 20, 3), "data");
    } else {
      new (&r_.v.data_) decltype(r_.v.data_){};
    }
    if (kind != 0) {
      arb_vec(r_.v.bucket_starts_, used_ ? n_ + 1 : 0, vp::any_size<S>("spare2", 0, 1u << 20, 3), "starts");
    } else {
      new (&r_.v.bucket_starts_) decltype(r_.v.bucket_starts_){};
    }
#ifdef VP_NATIVE
    if (used_) {
      S at = 0;
      for (S i = 0; i <= n_; ++i) {
        r_.v.bucket_starts_[i] = i == n_ ? m_ : at;
        at += (m_ - at) * (r_.v.data_.empty() ? 0 : r_.v.data_[i % m_] % 4) / 4;
      }
      if (n_ == 0) {
        m_ = 0;
        r_.v.data_.used_size_ = 0;
      }
      r_.v.bucket_starts_[0] = 0;
    }
#else
    if (used_) {
      vp_assume(n_ != 0 || m_ == 0);
      vp_assume(st(0) == 0 && st(n_) == m_);
    }
#endif
    b_ = vp::any_size<S>("b", 0, MAXN, 7);
    j_ = vp::any_size<S>("j", 0, MAXN, 20);
    vp_index(b_);
    vp_index(b_ + 1);
    vp_index(j_);
    if (nonempty) {
      vp_assume(b_ < n_);  // there is a bucket: any of them
    }
    has_ = nonempty || (used_ && vp_fork(b_ < n_));
    s0_ = has_ ? st(b_) : 0;
    s1_ = has_ ? st(b_ + 1) : 0;
    ordered(s0_, s1_);
    in_ = vp_fork(j_ < s1_ - s0_);
    vp_index(s0_ + j_);
    old_ = in_ ? r_.v.data_.begin()[s0_ + j_] : 0;
  }
  S st(S i) const { return r_.v.bucket_starts_.begin()[i]; }
  // the invariant at two neighbouring entries
  void ordered(S a, S b) { vp_assume(a <= b && b <= m_); }
  // the starts ascend: bucket t (t0 to t1) lies before, at or behind bucket b_
  void relate(S t, S t0, S t1, int same = 2) {
    if (same == 2 ? vp_fork(t == b_) : same == 1) {
      vp_assume(t == b_);
      return;
    }
    vp_assume(t != b_);
    if (vp_fork(t < b_)) {
      vp_assume(t1 <= s0_);
    } else {
      vp_assume(s1_ <= t0);
    }
  }
  VV& operator*() { return r_.v; }
  VV* operator->() { return &r_.v; }
  // bucket b holds `size` elements, the j-th is x (when there is one); access() proves that every
  // form of access yields these
  void bucket_is(S b, S size, bool has, std::uint32_t x, char const* what) {
    vp_assert(st(b + 1) - st(b) == size && st(b) <= st(b + 1), what);
    if (has) {
      vp_assert(j_ < size && r_.v.data_.begin()[st(b) + j_] == x, what);
    }
  }
  void unchanged(char const* what = "every other bucket keeps its elements") {
    if (has_) {
      bucket_is(b_, s1_ - s0_, in_, old_, what);
    }
  }
  // the invariant after the operation: n buckets, m elements
  void wf(S n, S m) {
    auto const& c = r_.v;
    vp_assert(c.size() == n && c.empty() == (n == 0), "number of buckets");
    vp_assert(c.data_.size() == m, "number of elements");
    vp_assert(c.bucket_starts_.size() == n + 1 || (n == 0 && c.bucket_starts_.empty()), "one start per bucket and the end");
    if (!c.bucket_starts_.empty()) {
      vp_assert(st(0) == 0 && st(n) == m, "starts at the first element and ends with the last");
    }
  }
  vp::raw<VV> r_;
  bool used_, has_, in_;
  S n_, m_, b_, j_, s0_, s1_;
  std::uint32_t old_;
};

template <typename VV>
void emplace_range() {
  state<VV> s;
  auto const m = vp::any_size<S>("m", 0, MAXN, 8);
  auto* src = vp::any_array<std::uint32_t>(m, "src");
  vp_index(s.j_);
  struct range {
    std::uint32_t* begin() const { return b_; }
    std::uint32_t* end() const { return e_; }
    std::uint32_t *b_, *e_;
  } const r{src, src + m};
  auto const x = s.j_ < m ? src[s.j_] : 0;
  s->emplace_back(r);
  s.wf(s.n_ + 1, s.m_ + m);
  s.unchanged();
  s.bucket_is(s.n_, m, s.j_ < m, x, "the new bucket holds the given elements");
}
template <typename VV>
void emplace_list() {
  state<VV> s;
  auto const x = vp::any<std::uint32_t>("x"), y = vp::any<std::uint32_t>("y");
  s->emplace_back({x, y});
  s.wf(s.n_ + 1, s.m_ + 2);
  s.unchanged();
  auto const& c = *s;
  vp_assert(c[typename VV::key{s.n_}].size() == 2 && c[typename VV::key{s.n_}][0] == x && c[typename VV::key{s.n_}][1] == y, "the list");
}
template <typename VV>
void add_sized() {
  state<VV> s;
  auto const m = vp::any_size<S>("m", 0, MAXN, 8);
  auto b = s->add_back_sized(m);
  s.wf(s.n_ + 1, s.m_ + m);
  s.unchanged();
  vp_assert(b.size() == m && b == (*s)[typename VV::key{s.n_}], "the new bucket of the requested size");
  s.bucket_is(s.n_, m, s.j_ < m, 0, "its elements are value-initialised");
}
template <typename VV>
void resize() {
  state<VV> s;
  auto const n = vp::any_size<S>("n", 0, MAXN, 8);
  if (s.used_ && n < s.n_) {
    s.ordered(s.st(n), s.m_);
    if (s.has_ && s.b_ < n) {
      vp_assume(s.s1_ <= s.st(n));  // the starts ascend
    }
  }
  auto const keep = s.used_ && n < s.n_ ? s.st(n) : s.m_;
  s->resize(n);
  s.wf(n, keep);
  if (s.b_ < n) {
    if (s.has_) {
      s.unchanged("remaining buckets keep their elements");
    } else {
      s.bucket_is(s.b_, 0, false, 0, "new buckets are empty");
    }
  }
}
// the same container goes on after shrinking: what was removed does not come back
template <typename VV, bool Same>
void bucket_push() {
  state<VV> s(true);
  auto const t = vp::any_size<S>("t", 0, MAXN, 7);
  vp_index(t);
  vp_assume(t < s.n_);
  auto const t0 = s.st(t), t1 = s.st(t + 1);
  s.ordered(t0, t1);
  s.relate(t, t0, t1, Same ? 1 : 0);
  auto const x = vp::any<std::uint32_t>("x");
  (*s)[typename VV::key{t}].push_back(x);
  s.wf(s.n_, s.m_ + 1);
  if (s.has_ && s.b_ != t) {
    s.unchanged();
  } else if (s.has_) {
    s.bucket_is(t, t1 - t0 + 1, s.in_, s.old_, "earlier elements stay");
  }
  auto const& c = *s;
  vp_assert(c[typename VV::key{t}].back() == x && (*s)[typename VV::key{t}].back() == x, "the new last element");
}
template <typename VV, bool Same>
void bucket_grow() {
  state<VV> s(true);
  auto const t = vp::any_size<S>("t", 0, MAXN, 7);
  vp_index(t);
  vp_assume(t < s.n_);
  auto const t0 = s.st(t), t1 = s.st(t + 1);
  s.ordered(t0, t1);
  s.relate(t, t0, t1, Same ? 1 : 0);
  auto const x = vp::any<std::uint32_t>("x");
  auto const g = vp::any_size<S>("g", 0, MAXN, 8);
  auto thrown = false;
  try {
    (*s)[typename VV::key{t}].grow(g, x);
  } catch (cista_exception const&) {
    thrown = true;
  }
  vp_assert(thrown == (g < t1 - t0), "shrinking is rejected");
  if (thrown) {
    s.wf(s.n_, s.m_);
    s.unchanged();
    return;
  }
  s.wf(s.n_, s.m_ + (g - (t1 - t0)));
  if (s.has_ && s.b_ != t) {
    s.unchanged();
  } else if (s.has_) {
    s.bucket_is(t, g, s.in_ || s.j_ < g, s.in_ ? s.old_ : x, "earlier elements stay, the new ones are the given value");
  }
}
template <typename VV>
void access() {
  state<VV> s;
  using key = typename VV::key;
  auto& v = *s;
  auto const& c = v;
  s.wf(s.n_, s.m_);
  int t = 0;
  try {
    (void)v.at(key{s.b_});
  } catch (cista_exception const&) {
    t |= 1;
  }
  try {
    (void)c.at(key{s.b_});
  } catch (cista_exception const&) {
    t |= 2;
  }
  vp_assert(t == (s.has_ ? 0 : 3), "at rejects every bucket out of range, and no other");
  if (s.has_) {
    t = 0;
    try {
      vp_assert(v[key{s.b_}].at(s.j_) == s.old_, "element");
    } catch (cista_exception const&) {
      t |= 1;
    }
    try {
      vp_assert(c[key{s.b_}].at(s.j_) == s.old_, "element");
    } catch (cista_exception const&) {
      t |= 2;
    }
    vp_assert(t == (s.in_ ? 0 : 3), "at of a bucket rejects every element out of range, and no other");
    auto b = v[key{s.b_}];
    auto const cb = c[key{s.b_}];
    auto const n = s.s1_ - s.s0_;
    vp_assert(b.empty() == (n == 0) && cb.empty() == (n == 0), "empty");
    vp_assert(static_cast<S>(b.end() - b.begin()) == n && static_cast<S>(cb.end() - cb.begin()) == n && size(b) == n && size(cb) == n,
              "iteration length");
    vp_assert(n == 0 || (b.begin() == &v.data_[s.s0_] && cb.begin() == &v.data_[s.s0_] && b.data() == b.begin() && cb.data() == cb.begin()),
              "iteration starts with the first element");
    vp_assert(n == 0 || (&b.front() == b.begin() && &cb.front() == b.begin() && &b.back() == b.end() - 1 && &cb.back() == b.end() - 1),
              "front and back");
    auto const vw = cb.view();
    vp_assert(vw.size() == n && (n == 0 || reinterpret_cast<std::uint32_t const*>(vw.data()) == b.begin()), "view");
    vp_assert(v.begin() + s.b_ == v[key{s.b_}] && c.begin() + s.b_ == c[key{s.b_}], "iteration over the buckets");
  }
  vp_assert(static_cast<S>(v.end() - v.begin()) == s.n_ && static_cast<S>(c.end() - c.begin()) == s.n_, "as many buckets as the size");
  vp_assert(v.begin() - v.end() == -static_cast<std::ptrdiff_t>(s.n_) && c.begin() - c.end() == -static_cast<std::ptrdiff_t>(s.n_),
            "negative distances");
  if (s.n_ != 0) {
    vp_assert(v.front() == v.begin() && c.front() == c.begin() && v.back() == v.end() - 1 && c.back() == c.end() - 1, "front and back");
    auto it = v.begin();
    auto ct = c.begin();
    vp_assert(it != v.end() && ct != c.end(), "not at the end");
    ++it;
    ++ct;
    vp_assert(it - v.begin() == 1 && ct - c.begin() == 1, "next");
    it += s.n_ - 1;
    ct += s.n_ - 1;
    vp_assert(it == v.end() && ct == c.end(), "end");
    --it;
    --ct;
    vp_assert(it == v.back() && ct == c.back(), "previous");
    it -= s.n_ - 1;
    ct -= s.n_ - 1;
    vp_assert(it == v.begin() && ct == c.begin(), "back at the start");
  }
}
template <typename VV>
void write() {
  state<VV> s(true);
  using key = typename VV::key;
  auto const t = vp::any_size<S>("t", 0, MAXN, 7), e = vp::any_size<S>("e", 0, MAXN, 20);
  vp_assume(t < s.n_);
  vp_index(t);
  auto const t0 = s.st(t), t1 = s.st(t + 1);
  s.ordered(t0, t1);
  s.relate(t, t0, t1);
  vp_assume(e < t1 - t0);
  auto const x = vp::any<std::uint32_t>("x");
  auto const how = vp::any_in<unsigned>("how", 0, 2);
  if (how == 0) {
    (*s)[key{t}][e] = x;
  } else if (how == 1) {
    s->at(key{t}).at(e) = x;
  } else {
    *((*s)[key{t}].begin() + e) = x;
  }
  s.wf(s.n_, s.m_);
  vp_assert((*s)[key{t}][e] == x, "the written element");
  if (s.has_) {
    s.bucket_is(s.b_, s.s1_ - s.s0_, s.in_, s.b_ == t && s.j_ == e ? x : s.old_, "exactly that element changes");
  }
}
template <typename VV>
void clear() {
  state<VV> s;
  s->clear();
  s.wf(0, 0);
  auto const& c = *s;
  vp_assert(c.begin() == c.end() && s->begin() == s->end(), "nothing to visit");
}
}  // namespace

#define OPS(tag, ...)                                              \
  OBLIGATION(emplace_range_##tag) { emplace_range<__VA_ARGS__>(); } \
  OBLIGATION(emplace_list_##tag) { emplace_list<__VA_ARGS__>(); }  \
  OBLIGATION(add_sized_##tag) { add_sized<__VA_ARGS__>(); }        \
  OBLIGATION(resize_##tag) { resize<__VA_ARGS__>(); }              \
  OBLIGATION(bucket_push_##tag) { bucket_push<__VA_ARGS__, true>(); } \
  OBLIGATION(bucket_grow_##tag) { bucket_grow<__VA_ARGS__, true>(); } \
  OBLIGATION(push_elsewhere_##tag) { bucket_push<__VA_ARGS__, false>(); } \
  OBLIGATION(grow_elsewhere_##tag) { bucket_grow<__VA_ARGS__, false>(); } \
  OBLIGATION(access_##tag) { access<__VA_ARGS__>(); }              \
  OBLIGATION(write_##tag) { write<__VA_ARGS__>(); }                \
  OBLIGATION(clear_##tag) { clear<__VA_ARGS__>(); }
OPS(raw, rvv)
OPS(off, ovv)
OBLIGATION(access_idx) { access<pvv>(); }
OBLIGATION(write_idx) { write<pvv>(); }
OBLIGATION(emplace_range_idx) { emplace_range<pvv>(); }

// ------------------------------------------------------------- histories against lists of lists (bounded)
namespace {
template <typename VV, typename T, typename Make>
void history(Make make) {
  using key = typename VV::key;
  VV v;
  std::vector<std::vector<T>> m;
  auto const steps = vp::any_in<unsigned>("steps", 1, 24);
  unsigned x = 0;
  for (unsigned i = 0; i != steps; ++i) {
    auto const op = vp::any_in<unsigned>("op", 0, 7);
    std::vector<T> b;
    auto const len = vp::any_in<unsigned>("len", 0, 5);
    for (unsigned k = 0; k != len; ++k) {
      b.push_back(make(++x));
    }
    auto const at = m.empty() ? 0 : vp::any_in<unsigned>("at", 0, 100) % m.size();
    switch (op) {
      case 0:
      case 1: {
        auto const keep = b;
        v.emplace_back(b);
        m.push_back(keep);
        break;
      }
      case 2:
        v.add_back_sized(len);
        m.emplace_back(len, T{});
        break;
      case 3:
        if (!m.empty()) {
          auto const t = make(++x);
          v[key{static_cast<S>(at)}].push_back(t);
          m[at].push_back(t);
        }
        break;
      case 4:
        if (!m.empty()) {
          auto const t = make(++x);
          v[key{static_cast<S>(at)}].grow(m[at].size() + len, t);
          m[at].resize(m[at].size() + len, t);
        }
        break;
      case 5:
        v.resize(len + 1);
        m.resize(len + 1);
        break;
      case 6:
        if (!m.empty() && !m[at].empty()) {
          auto const t = make(++x);
          v[key{static_cast<S>(at)}][len % m[at].size()] = t;
          m[at][len % m[at].size()] = t;
        }
        break;
      default:
        if (len == 5) {
          v.clear();
          m.clear();
        } else {
          VV const c{v};
          v = c;
        }
    }
    vp_assert(v.size() == m.size() && v.empty() == m.empty(), "bucket count");
    auto const& c = v;
    std::size_t n = 0, total = 0;
    for (auto const& bk : c) {
      vp_assert(n < m.size() && bk.size() == m[n].size() && std::equal(bk.begin(), bk.end(), m[n].begin()), "buckets in order");
      ++n;
    }
    vp_assert(n == m.size(), "all buckets");
    n = 0;
    for (auto bk : v) {
      vp_assert(bk.size() == m[n].size() && std::equal(bk.begin(), bk.end(), m[n].begin()), "buckets in order");
      total += bk.size();
      ++n;
    }
    vp_assert(n == m.size() && total == v.data_.size(), "all elements");
    for (std::size_t i = 0; i != m.size() + 2; ++i) {
      auto thrown = false;
      try {
        (void)v.at(key{static_cast<S>(i)});
      } catch (cista_exception const&) {
        thrown = true;
      }
      vp_assert(thrown == (i >= m.size()), "checked access");
    }
  }
}
}  // namespace
NATIVE(history_raw) { history<rvv, std::uint32_t>([](unsigned x) { return x; }); }
NATIVE(history_off) { history<ovv, std::uint32_t>([](unsigned x) { return x; }); }
NATIVE(history_strings) {
  history<raw::vecvec<K, raw::string>, raw::string>([](unsigned x) {
    return raw::string{(x % 2 == 0 ? "s" : "a text that is longer than the short form ") + std::to_string(x)};
  });
}
NATIVE(texts) {
  raw::vecvec<K, char> v;
  v.emplace_back("hello");
  v.emplace_back(std::string_view{""});
  v.emplace_back(std::string{"x"});
  auto const& c = v;
  vp_assert(c[K{0}].view() == "hello" && c[K{1}].view().empty() && c[K{2}].view() == "x" && v[K{0}].view() == "hello", "texts");
}
