// P15: a nested vector keeps its shape at every depth.
// Representation: level N-1 (outermost) to 0; index_[L][i] .. index_[L][i + 1] are the children of
// entry i of level L in level L-1 (for L = 0: in the data).  Invariant per level: no entries at all
// (never used) or 0 = index_[L][0] <= ... <= index_[L][count] = number of entries below.
// Arbitrary objects: any counts, any starts, any content, the invariant used along an arbitrary path.
#include "vp.h"
#include "arb.h"
#include "vec_contracts.h"

#include <vector>

#include "cista/containers/nvec.h"
#include "cista/strong.h"

using namespace cista;
VEC_CONTRACTS(ru32, raw::vector<std::uint32_t>)
VEC_CONTRACTS(ou32, offset::vector<std::uint32_t>)

namespace {
using S = std::uint32_t;
using K = strong<S, struct nv_key_>;
constexpr S MAXN = 1u << 28;
using r2 = raw::nvec<K, std::uint32_t, 2>;
using o2 = offset::nvec<K, std::uint32_t, 2>;
using r3 = raw::nvec<K, std::uint32_t, 3>;
using o3 = offset::nvec<K, std::uint32_t, 3>;
using r4 = raw::nvec<K, std::uint32_t, 4>;

template <typename V>
void arb_vec(V& v, S n, char const* nm) {
  using T = typename V::value_type;
  new (&v) V{};
  auto const cap = n + vp::any_size<S>("spare", 0, 1u << 20, 3);
  vp_assume(cap != 0);
  v.el_ = static_cast<T*>(vp_any_mem(static_cast<std::uint64_t>(cap) * sizeof(T), sizeof(T), 16, nm));
  v.used_size_ = n;
  v.allocated_size_ = cap;
  v.self_allocated_ = true;
}

// an arbitrary nested vector with an arbitrary path: at level L the entry at_[L] (counted over the
// whole level), being child number p_[L]; deep_: number of levels on which the path is in range
template <typename NV, unsigned N>
struct state {
  explicit state(bool nonempty = false) {
    used_ = nonempty || vp_fork(vp::any<bool>("used"));
    for (unsigned l = 0; l != N; ++l) {
      cnt_[l] = used_ ? vp::any_size<S>("count", l + 1 == N && nonempty ? 1 : 0, MAXN, 5) : 0;
    }
    m_ = used_ ? vp::any_size<S>("elements", 0, MAXN, 12) : 0;
    if (used_) {
      for (unsigned l = 0; l != N; ++l) {
        arb_vec(r_.v.index_[l], cnt_[l] + 1, "index");
      }
      arb_vec(r_.v.data_, m_, "data");
#ifdef VP_NATIVE
      for (unsigned l = 0; l != N; ++l) {
        auto& ix = r_.v.index_[l];
        auto& below = l == 0 ? m_ : cnt_[l - 1];
        if (cnt_[l] == 0) {  // nothing above: nothing below
          for (unsigned q = 0; q <= l; ++q) {
            cnt_[q] = 0;
            r_.v.index_[q].used_size_ = 1;
            r_.v.index_[q][0] = 0;
          }
          m_ = 0;
          r_.v.data_.used_size_ = 0;
        }
        S at = 0;
        for (S i = 0; i <= cnt_[l]; ++i) {
          auto const f = ix[i] % 4;
          ix[i] = i == cnt_[l] ? below : at;
          at += (below - at) * f / 4;
        }
        ix[0] = 0;
        if (cnt_[l] != 0) {
          ix[cnt_[l]] = below;
        }
      }
#else
      for (unsigned l = 0; l != N; ++l) {
        vp_assume(ix(l, 0) == 0 && ix(l, cnt_[l]) == below(l));
        vp_assume(cnt_[l] != 0 || below(l) == 0);
      }
#endif
    } else {
      new (&r_.v) NV{};
    }
    // the path
    deep_ = 0;
    for (unsigned d = 0; d != N; ++d) {
      auto const l = N - 1 - d;
      p_[l] = vp::any_size<S>("p", 0, MAXN, 6);
      if (d == 0 && nonempty) {
        vp_assume(p_[l] < cnt_[l]);
      }
      if (!(used_ && deep_ == d && (d == 0 ? (nonempty || vp_fork(p_[l] < cnt_[l])) : vp_fork(p_[l] < hi_ - lo_)))) {
        continue;
      }
      at_[l] = d == 0 ? p_[l] : lo_ + p_[l];
      vp_index(at_[l]);
      vp_index(at_[l] + 1);
      lo_ = ix(l, at_[l]);
      hi_ = ix(l, at_[l] + 1);
      vp_assume(lo_ <= hi_ && hi_ <= below(l));  // invariant at this entry
      n_[l] = hi_ - lo_;
      deep_ = d + 1;
    }
    j_ = vp::any_size<S>("j", 0, MAXN, 6);
    in_ = deep_ == N && vp_fork(j_ < n_[0]);
    if (in_) {
      vp_index(lo_ + j_);
      old_ = r_.v.data_.begin()[lo_ + j_];
    }
  }
  S ix(unsigned l, S i) const { return r_.v.index_[l].begin()[i]; }
  S below(unsigned l) const { return l == 0 ? m_ : cnt_[l - 1]; }
  // what the path led to is still there
  void path_kept() {
    S at = 0;
    for (unsigned d = 0; d != deep_; ++d) {
      auto const l = N - 1 - d;
      at = d == 0 ? p_[l] : at + p_[l];
      vp_assert(ix(l, at) <= ix(l, at + 1) && ix(l, at + 1) - ix(l, at) == n_[l], "sizes along the path");
      at = ix(l, at);
    }
    if (in_) {
      vp_assert(r_.v.data_.begin()[at + j_] == old_, "the element at the end of the path");
    }
  }
  NV& operator*() { return r_.v; }
  NV* operator->() { return &r_.v; }
  vp::raw<NV> r_;
  bool used_, in_ = false;
  S cnt_[N], p_[N], at_[N], n_[N], m_, j_, lo_ = 0, hi_ = 0;
  unsigned deep_;
  std::uint32_t old_ = 0;
};

template <typename F>
bool throws(F const& f) {
  try {
    f();
  } catch (cista_exception const&) {
    return true;
  }
  return false;
}

template <typename NV>
void access2() {
  state<NV, 2> s;
  auto& v = *s;
  auto const& c = v;
  vp_assert(c.size() == s.cnt_[1], "number of entries");
  auto const k = K{s.p_[1]};
  S got = 0, got2 = 0, got3 = 0;
  vp_assert(throws([&] { got = c.size(k); }) == (s.deep_ < 1), "size rejects exactly the paths out of range");
  vp_assert(s.deep_ < 1 || got == s.n_[1], "size");
  vp_assert(throws([&] { got2 = c.size(k, s.p_[0]); }) == (s.deep_ < 2), "size rejects exactly the paths out of range");
  vp_assert(s.deep_ < 2 || got2 == s.n_[0], "size of the inner entry");
  vp_assert(throws([&] { got = v.at(k, s.p_[0]).at(s.j_); }) == !s.in_, "at rejects exactly the paths out of range");
  vp_assert(throws([&] { got2 = c.at(k, s.p_[0]).at(s.j_); }) == !s.in_, "at rejects exactly the paths out of range");
  vp_assert(throws([&] { got3 = static_cast<S>(c.at(k, s.p_[0]).size()); }) == (s.deep_ < 2), "at");
  vp_assert(!s.in_ || (got == s.old_ && got2 == s.old_), "the element");
  vp_assert(s.deep_ < 2 || got3 == s.n_[0], "size of the inner entry");
}
template <typename NV>
void iterate2() {
  state<NV, 2> s;
  auto& v = *s;
  auto const& c = v;
  auto const k = K{s.p_[1]};
  if (s.cnt_[1] != 0) {
    vp_assert(v.begin() != v.end() && c.begin() != c.end(), "something to visit");
    vp_assert(v.begin() + s.cnt_[1] == v.end() && c.begin() + s.cnt_[1] == c.end(), "as many entries as the size");
  } else {
    vp_assert(v.begin() == v.end() && c.begin() == c.end(), "nothing to visit");
  }
  if (s.deep_ >= 1) {
    auto a = v[k];
    auto ca = c[k];
    vp_assert(a == v.begin() + s.p_[1] && ca == c.begin() + s.p_[1], "indexing is iteration");
    vp_assert(a.size() == s.n_[1] && ca.size() == s.n_[1], "size");
    vp_assert(a.end() - a.begin() == s.n_[1] && ca.end() - ca.begin() == s.n_[1], "iteration length");
    vp_assert(a.begin() - a.end() == -static_cast<std::ptrdiff_t>(s.n_[1]) && ca.begin() - ca.end() == -static_cast<std::ptrdiff_t>(s.n_[1]),
              "negative distances");
  }
  if (s.deep_ == 2) {
    auto b = v[k][s.p_[0]];
    auto cb = *(c[k].begin() + s.p_[0]);
    auto const n = s.n_[0];
    vp_assert(b.size() == n && cb.size() == n && b.empty() == (n == 0) && cb.empty() == (n == 0), "inner size");
    vp_assert(b.end() - b.begin() == n && cb.end() - cb.begin() == n, "inner iteration length");
    vp_assert(b == v.at(k, s.p_[0]) && cb == c.at(k, s.p_[0]), "iteration agrees with indexing");
    if (s.in_) {
      vp_assert(b[s.j_] == s.old_ && cb[s.j_] == s.old_ && *(b.begin() + s.j_) == s.old_ && *(cb.begin() + s.j_) == s.old_, "the element");
      vp_assert(b.front() == *b.begin() && cb.front() == *cb.begin() && &b.back() == b.end() - 1 && &cb.back() == cb.end() - 1, "front and back");
      auto const x = vp::any<std::uint32_t>("x");
      b[s.j_] = x;
      vp_assert(c.at(k, s.p_[0]).at(s.j_) == x, "written through iteration");
    }
  }
}
template <typename NV>
void access3() {
  state<NV, 3> s;
  auto& v = *s;
  auto const& c = v;
  auto const k = K{s.p_[2]};
  S g1 = 0, g2 = 0, g3 = 0, got = 0, got2 = 0;
  vp_assert(c.size() == s.cnt_[2], "number of entries");
  vp_assert(throws([&] { g1 = c.size(k); }) == (s.deep_ < 1), "size rejects exactly the paths out of range");
  vp_assert(throws([&] { g2 = c.size(k, s.p_[1]); }) == (s.deep_ < 2), "size rejects exactly the paths out of range");
  vp_assert(throws([&] { g3 = c.size(k, s.p_[1], s.p_[0]); }) == (s.deep_ < 3), "size rejects exactly the paths out of range");
  vp_assert((s.deep_ < 1 || g1 == s.n_[2]) && (s.deep_ < 2 || g2 == s.n_[1]) && (s.deep_ < 3 || g3 == s.n_[0]), "sizes");
  vp_assert(throws([&] { got = v.at(k, s.p_[1], s.p_[0]).at(s.j_); }) == !s.in_, "at rejects exactly the paths out of range");
  vp_assert(throws([&] { got2 = c.at(k, s.p_[1], s.p_[0]).at(s.j_); }) == !s.in_, "at rejects exactly the paths out of range");
  vp_assert(!s.in_ || (got == s.old_ && got2 == s.old_), "the element");
}
template <typename NV>
void iterate3() {
  state<NV, 3> s;
  auto& v = *s;
  auto const& c = v;
  vp_assert(v.begin() + s.cnt_[2] == v.end() && c.begin() + s.cnt_[2] == c.end(), "as many entries as the size");
  if (s.deep_ == 3) {
    auto const k = K{s.p_[2]};
    auto b = v[k][s.p_[1]][s.p_[0]];
    auto cb = *((*((*(c.begin() + s.p_[2])).begin() + s.p_[1])).begin() + s.p_[0]);
    vp_assert(v[k].size() == s.n_[2] && v[k][s.p_[1]].size() == s.n_[1] && b.size() == s.n_[0] && cb.size() == s.n_[0], "sizes");
    auto a = v[k];
    auto const e = s.n_[2];
    vp_assert(a.begin() + e == a.end(), "iteration length");
    if (s.in_) {
      vp_assert(b[s.j_] == s.old_ && cb[s.j_] == s.old_, "the element");
    }
  }
}

// ranges of ranges
struct range {
  using value_type = std::uint32_t;
  std::uint32_t* begin() const { return b_; }
  std::uint32_t* end() const { return e_; }
  std::size_t size() const { return static_cast<std::size_t>(e_ - b_); }
  std::uint32_t *b_, *e_;
};
template <typename Inner>
struct list {
  Inner const* begin() const { return in_; }
  Inner const* end() const { return in_ + n_; }
  std::size_t size() const { return n_; }
  Inner in_[2];
  unsigned n_;
};
// an entry with `Outer` inner entries of any length
template <typename NV, unsigned Outer>
void append2() {
  state<NV, 2> s;
  list<range> l{};
  l.n_ = Outer;
  S len[2] = {0, 0};
  for (unsigned i = 0; i != Outer; ++i) {
    len[i] = vp::any_size<S>("len", 0, MAXN, 6);
    l.in_[i].b_ = vp::any_array<std::uint32_t>(len[i], "src");
    l.in_[i].e_ = l.in_[i].b_ + len[i];
  }
  auto const j = vp::any_size<S>("jj", 0, MAXN, 6);
  vp_index(j);
  s->emplace_back(l);
  vp_assert(s->index_[1].size() == s.cnt_[1] + 2 && s->index_[0].size() == s.cnt_[0] + Outer + 1 && s->data_.size() == s.m_ + len[0] + len[1],
            "one more entry with its inner entries and elements");
  vp_assert(s.ix(1, 0) == 0 && s.ix(0, 0) == 0, "starts at the first entries");
  vp_assert(s.ix(1, s.cnt_[1]) == s.cnt_[0] && s.ix(1, s.cnt_[1] + 1) == s.cnt_[0] + Outer, "the new entry: as many inner entries as given");
  S at = s.m_;
  vp_assert(s.ix(0, s.cnt_[0]) == at, "behind the earlier elements");
  for (unsigned i = 0; i != Outer; ++i) {
    if (j < len[i]) {
      vp_assert(s->data_.begin()[at + j] == l.in_[i].b_[j], "the given elements in order");
    }
    at += len[i];
    vp_assert(s.ix(0, s.cnt_[0] + i + 1) == at, "the given inner sizes");
  }
  s.path_kept();
}
}  // namespace

OBLIGATION(access2_raw) { access2<r2>(); }
OBLIGATION(access2_off) { access2<o2>(); }
OBLIGATION(access3_raw) { access3<r3>(); }
OBLIGATION(access3_off) { access3<o3>(); }
OBLIGATION(iterate2_raw) { iterate2<r2>(); }
OBLIGATION(iterate2_off) { iterate2<o2>(); }
OBLIGATION(iterate3_raw) { iterate3<r3>(); }
OBLIGATION(iterate3_off) { iterate3<o3>(); }
OBLIGATION(append_none_raw) { append2<r2, 0>(); }
OBLIGATION(append_none_off) { append2<o2, 0>(); }
OBLIGATION(append_one_raw) { append2<r2, 1>(); }
OBLIGATION(append_one_off) { append2<o2, 1>(); }
OBLIGATION(append_two_raw) { append2<r2, 2>(); }

// ------------------------------------------------------------- histories against nested lists (bounded)
namespace {
template <unsigned D>
auto fill(unsigned& x) {
  if constexpr (D == 0) {
    return ++x;
  } else {
    std::vector<decltype(fill<D - 1>(x))> v;
    auto const n = vp::any_in<unsigned>("n", 0, 3);
    for (unsigned i = 0; i != n; ++i) {
      v.push_back(fill<D - 1>(x));
    }
    return v;
  }
}
template <typename B, typename M>
void same(B const& b, M const& m) {
  std::size_t n = 0;
  for (auto const& x : b) {
    vp_assert(n < m.size(), "not more than appended");
    if constexpr (std::is_integral_v<typename M::value_type>) {
      vp_assert(x == m[n], "element");
    } else {
      same(x, m[n]);
    }
    ++n;
  }
  vp_assert(n == m.size() && b.size() == m.size(), "all of them");
}
// index paths: the first index is a key, the others are plain
template <typename NV, typename M>
void paths2(NV& v, M const& m) {
  auto const& c = v;
  for (S i = 0; i != m.size() + 2; ++i) {
    auto const ok = i < m.size();
    S n = 0;
    vp_assert(throws([&] { n = c.size(K{i}); }) == !ok && (!ok || n == m[i].size()), "size");
    for (S j = 0; j != (ok ? m[i].size() : 0) + 2; ++j) {
      auto const ok2 = ok && j < m[i].size();
      vp_assert(throws([&] { n = c.size(K{i}, j); }) == !ok2 && (!ok2 || n == m[i][j].size()), "inner size");
      for (S k = 0; k != (ok2 ? m[i][j].size() : 0) + 2; ++k) {
        auto const ok3 = ok2 && k < m[i][j].size();
        std::uint32_t x = 0, y = 0;
        vp_assert(throws([&] { x = c.at(K{i}, j).at(k); }) == !ok3 && throws([&] { y = v.at(K{i}, j).at(k); }) == !ok3, "checked access");
        vp_assert(!ok3 || (x == m[i][j][k] && y == x), "element");
      }
    }
  }
}
template <typename NV, typename M>
void paths3(NV& v, M const& m) {
  auto const& c = v;
  for (S i = 0; i != m.size() + 1; ++i) {
    for (S j = 0; j != (i < m.size() ? m[i].size() : 0) + 1; ++j) {
      auto const ok2 = i < m.size() && j < m[i].size();
      for (S k = 0; k != (ok2 ? m[i][j].size() : 0) + 2; ++k) {
        auto const ok3 = ok2 && k < m[i][j].size();
        S n = 0;
        vp_assert(throws([&] { n = c.size(K{i}, j, k); }) == !ok3 && (!ok3 || n == m[i][j][k].size()), "inner size");
        for (S l = 0; l != (ok3 ? m[i][j][k].size() : 0) + 2; ++l) {
          auto const ok4 = ok3 && l < m[i][j][k].size();
          std::uint32_t x = 0, y = 0;
          vp_assert(throws([&] { x = c.at(K{i}, j, k).at(l); }) == !ok4 && throws([&] { y = v.at(K{i}, j, k).at(l); }) == !ok4, "checked access");
          vp_assert(!ok4 || (x == m[i][j][k][l] && y == x), "element");
        }
      }
    }
  }
}
template <typename NV, unsigned N>
void history() {
  NV v;
  unsigned x = 0;
  std::vector<decltype(fill<N>(x))> m;
  vp_assert(v.size() == 0, "empty at first");
  same(v, m);
  auto const steps = vp::any_in<unsigned>("steps", 1, 5);
  for (unsigned i = 0; i != steps; ++i) {
    auto const e = fill<N>(x);
    v.emplace_back(e);
    m.push_back(e);
    if (vp::any_in<unsigned>("copy", 0, 3) == 0) {
      NV const copy{v};
      v = copy;
    }
    auto const& c = v;
    same(c, m);
    same(v, m);
    vp_assert(c.front().size() == m.front().size() && c.back().size() == m.back().size() && v.back().size() == m.back().size(), "front and back");
    if constexpr (N == 2) {
      paths2(v, m);
    } else if constexpr (N == 3) {
      paths3(v, m);
    }
  }
}
}  // namespace
NATIVE(history2_raw) { history<r2, 2>(); }
NATIVE(history2_off) { history<o2, 2>(); }
NATIVE(history3_raw) { history<r3, 3>(); }
NATIVE(history3_off) { history<o3, 3>(); }
NATIVE(history4_raw) { history<r4, 4>(); }
