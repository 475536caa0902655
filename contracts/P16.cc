// P16: a fixed multimap built by key returns exactly the values pushed for each key.
// Representation while it is built: index_[k] is where key k starts, current_start_ is where the
// unfinished key starts, 0 = index_[0] <= index_[1] <= ... <= current_start_ <= data_.size();
// finished: index_ also holds the end.  Arbitrary objects: any number of keys, values and content.
// Precondition of finish_map: the values pushed last are finished (finish_key was called).
#include "vp.h"
#include "arb.h"
#include "vec_contracts.h"

#include <vector>

#include "cista/containers/fws_multimap.h"

using namespace cista;
VEC_CONTRACTS(ru32, raw::vector<std::uint32_t>)
VEC_CONTRACTS(ou32, offset::vector<std::uint32_t>)

namespace {
using S = std::uint32_t;
constexpr S MAXN = 1u << 28;
using rm = raw::fws_multimap<S, std::uint32_t>;
using om = offset::fws_multimap<S, std::uint32_t>;

template <typename V>
void arb_vec(V& v, S n, char const* nm) {
  using T = typename V::value_type;
  new (&v) V{};
  auto const cap = n + vp::any_size<S>("spare", 0, 1u << 20, 3);
  vp_assume(cap != 0);
  v.el_ = static_cast<T*>(vp_any_mem(static_cast<std::uint64_t>(cap) * sizeof(T), sizeof(T), 16, nm));
  v.used_size_ = n;
  v.allocated_size_ = cap;
  v.self_allocated_ = true;
}

// an arbitrary multimap; k_ is an arbitrary key (has_: it is finished), j_ an arbitrary position in
// it, p_ an arbitrary position among the pending values
template <typename M>
struct state {
  explicit state(bool complete) : complete_{complete} {
    if (!complete && vp_fork(vp::any<bool>("fresh"))) {
      new (&r_.v) M{};
      keys_ = m_ = start_ = 0;
    } else {
      keys_ = vp::any_size<S>("keys", 0, MAXN, 6);
      m_ = vp::any_size<S>("values", 0, MAXN, 12);
      start_ = complete ? m_ : vp::any_size<S>("start", 0, MAXN, 12);
      vp_assume(start_ <= m_ && (keys_ != 0 || start_ == 0));
      arb_vec(r_.v.index_, keys_ + (complete ? 1 : 0), "index");
      arb_vec(r_.v.data_, m_, "data");
#ifdef VP_NATIVE
      auto& ix = r_.v.index_;
      S at = 0;
      for (S i = 0; i < ix.size(); ++i) {
        auto const f = ix[i] % 4;
        ix[i] = at;
        at += (start_ - at) * f / 4;
      }
#endif
      if (complete) {
#ifdef VP_NATIVE
        r_.v.index_[keys_] = m_;
#else
        vp_assume(ix(keys_) == m_);
#endif
      }
#ifndef VP_NATIVE
      if (keys_ != 0) {
        vp_assume(ix(0) == 0);
      }
#endif
      r_.v.current_start_ = start_;
      r_.v.complete_ = complete;
    }
    k_ = vp::any_size<S>("k", 0, MAXN, 7);
    j_ = vp::any_size<S>("j", 0, MAXN, 12);
    p_ = vp::any_size<S>("p", 0, MAXN, 12);
    vp_index(k_);
    vp_index(k_ + 1);
    vp_index(j_);
    has_ = vp_fork(k_ < keys_);
    a_ = has_ ? ix(k_) : 0;
    b_ = has_ ? end_of(k_) : 0;
    vp_assume(a_ <= b_ && b_ <= start_);  // ascending
    in_ = has_ && vp_fork(j_ < b_ - a_);
    vp_index(a_ + j_);
    old_ = in_ ? r_.v.data_.begin()[a_ + j_] : 0;
    pending_ = vp_fork(p_ < m_ - start_);
    vp_index(start_ + p_);
    oldp_ = pending_ ? r_.v.data_.begin()[start_ + p_] : 0;
  }
  S ix(S i) const { return r_.v.index_.begin()[i]; }
  S end_of(S k) const { return !complete_ && k + 1 == keys_ ? start_ : ix(k + 1); }
  // key k_ has the same values as before (n keys are finished now, the unfinished one starts at c)
  void kept(S n, S c) {
    if (has_) {
      vp_assert(ix(k_) == a_ && (k_ + 1 == n && !r_.v.complete_ ? c : ix(k_ + 1)) == b_, "every finished key keeps its values");
      vp_assert(!in_ || r_.v.data_.begin()[a_ + j_] == old_, "every finished key keeps its values");
    }
  }
  void wf(S n, S m, bool done) {
    vp_assert(r_.v.finished() == done && r_.v.index_size() == n + (done ? 1U : 0U) && r_.v.data_size() == m, "number of keys and values");
    vp_assert(r_.v.current_key() == r_.v.index_size(), "current key");
    vp_assert(n == 0 || ix(0) == 0, "the first key starts at the first value");
    vp_assert(!done || ix(n) == m, "the last key ends at the last value");
  }
  M& operator*() { return r_.v; }
  M* operator->() { return &r_.v; }
  vp::raw<M> r_;
  bool complete_, has_, in_, pending_;
  S keys_, m_, start_, k_, j_, p_, a_, b_;
  std::uint32_t old_, oldp_;
};

template <typename M>
void push() {
  state<M> s(false);
  auto const x = vp::any<std::uint32_t>("x");
  if (vp_fork(vp::any<bool>("how"))) {
    s->push_back(x);
  } else {
    s->emplace_back(x);
  }
  s.wf(s.keys_, s.m_ + 1, false);
  vp_assert(s->current_start_ == s.start_, "belongs to the unfinished key");
  vp_assert(s->data_.begin()[s.m_] == x, "the value is the last one");
  vp_assert(!s.pending_ || s->data_.begin()[s.start_ + s.p_] == s.oldp_, "earlier pending values stay");
  s.kept(s.keys_, s.start_);
}
template <typename M>
void finish_key() {
  state<M> s(false);
  s->finish_key();
  s.wf(s.keys_ + 1, s.m_, false);
  vp_assert(s.ix(s.keys_) == s.start_ && s->current_start_ == s.m_, "the new key has the pending values");
  vp_assert(!s.pending_ || s->data_.begin()[s.start_ + s.p_] == s.oldp_, "in order");
  s.kept(s.keys_ + 1, s.m_);
}
template <typename M>
void finish_map() {
  state<M> s(false);
  vp_assume(s.start_ == s.m_);  // precondition: everything pushed is finished
  s->finish_map();
  s.wf(s.keys_, s.m_, true);
  s.kept(s.keys_, s.m_);
}
template <typename M>
void reserve() {
  state<M> s(false);
  auto const n = vp::any_size<S>("n", 0, MAXN, 30);
  s->reserve_index(n);
  s.wf(s.keys_, s.m_, false);
  vp_assert(s->current_start_ == s.start_, "reserving changes no content");
  s.kept(s.keys_, s.start_);
}
template <typename M>
void lookup() {
  state<M> s(true);
  M const& m = *s;
  s.wf(s.keys_, s.m_, true);
  if (!s.has_) {
    return;
  }
  auto const e = m[s.k_];
  auto const n = s.b_ - s.a_;
  vp_assert(e.size() == n && e.empty() == (n == 0), "number of values");
  vp_assert(static_cast<std::uint64_t>(e.end() - e.begin()) == n && e.cbegin() == e.begin() && e.cend() == e.end() && begin(e) == e.begin() &&
                end(e) == e.end(),
            "iteration length");
  if (s.in_) {
    vp_assert(e[s.j_] == s.old_ && *(e.begin() + s.j_) == s.old_ && e.data_index(s.j_) == s.a_ + s.j_, "the values in order");
  }
}
template <typename M>
void iterate() {
  state<M> s(true);
  M const& m = *s;
  auto const b = m.begin(), e = m.end();
  vp_assert(e - b == static_cast<int>(s.keys_) && b - e == -static_cast<int>(s.keys_), "as many keys as finished");
  vp_assert((b == e) == (s.keys_ == 0) && (b != e) == (s.keys_ != 0) && (b < e) == (s.keys_ != 0) && b <= e && e >= b && (e > b) == (s.keys_ != 0),
            "order");
  vp_assert(m.cbegin() == b && m.cend() == e && begin(m) == b && end(m) == e, "ranges");
  auto const k = static_cast<int>(s.k_);
  auto it = b + k;
  vp_assert(it - b == k && it - k == b, "distance");
  auto c = b;
  c += k;
  vp_assert(c == it, "advance");
  c -= k;
  vp_assert(c == b, "go back");
  ++c;
  vp_assert(c - b == 1, "next");
  --c;
  vp_assert(c == b, "previous");
  if (s.has_) {
    auto const x = *it;
    auto const y = m[s.k_];
    vp_assert(x.begin() == y.begin() && x.end() == y.end() && x.size() == s.b_ - s.a_, "iteration agrees with indexing");
  }
}
}  // namespace
#define OPS(tag, ...)                                       \
  OBLIGATION(push_##tag) { push<__VA_ARGS__>(); }           \
  OBLIGATION(finish_key_##tag) { finish_key<__VA_ARGS__>(); } \
  OBLIGATION(finish_map_##tag) { finish_map<__VA_ARGS__>(); } \
  OBLIGATION(reserve_##tag) { reserve<__VA_ARGS__>(); }     \
  OBLIGATION(lookup_##tag) { lookup<__VA_ARGS__>(); }       \
  OBLIGATION(iterate_##tag) { iterate<__VA_ARGS__>(); }
OPS(raw, rm)
OPS(off, om)

namespace {
template <typename M>
void history() {
  M m;
  std::vector<std::vector<std::uint32_t>> want;
  auto const keys = vp::any_in<unsigned>("keys", 0, 12);
  std::uint32_t x = 0;
  if (vp::any<bool>("reserve")) {
    m.reserve_index(vp::any_in<unsigned>("r", 0, 20));
  }
  for (unsigned k = 0; k != keys; ++k) {
    vp_assert(m.current_key() == k && !m.finished(), "current key");
    std::vector<std::uint32_t> v;
    auto const n = vp::any_in<unsigned>("n", 0, 4);
    for (unsigned i = 0; i != n; ++i) {
      if (vp::any<bool>("how")) {
        m.push_back(++x);
      } else {
        m.emplace_back(++x);
      }
      v.push_back(x);
      if (vp::any_in<unsigned>("r2", 0, 9) == 0) {
        m.reserve_index(vp::any_in<unsigned>("r", 0, 20));
      }
    }
    m.finish_key();
    want.push_back(v);
  }
  m.finish_map();
  M const copy{m};
  for (M const* c : {static_cast<M const*>(&m), &copy}) {
    vp_assert(c->finished() && c->index_size() == keys + 1 && c->data_size() == x, "counts");
    S k = 0;
    for (auto const& e : *c) {
      vp_assert(k < keys && e.size() == want[k].size() && std::equal(e.begin(), e.end(), want[k].begin()), "iteration");
      auto const y = (*c)[k];
      vp_assert(y.size() == want[k].size() && std::equal(y.begin(), y.end(), want[k].begin()), "lookup");
      for (S i = 0; i != y.size(); ++i) {
        vp_assert(y[i] == want[k][i], "value");
      }
      ++k;
    }
    vp_assert(k == keys, "all keys");
    for (auto it = c->end(); it != c->begin();) {
      --it;
      --k;
      vp_assert((*it).size() == want[k].size(), "backwards");
    }
  }
}
}  // namespace
NATIVE(history_raw) { history<rm>(); }
NATIVE(history_off) { history<om>(); }
