// P17: a mutable multimap keeps every bucket intact while others grow, shrink and move.
// Representation: a bucket is a block (begin, capacity, size) of the data; free_buckets_[o] holds the
// released blocks of capacity 2^o.  Invariant: size <= capacity, a capacity is zero or a power of two,
// every block lies inside the data, and the blocks (of buckets and free ones) are pairwise disjoint.
// Arbitrary objects: any number of buckets and free blocks, any blocks, any content.  The invariant is
// used at the bucket operated on (t), an arbitrary other bucket (b), an arbitrary free block (f) and
// the free block taken; it is re-established for t, b, f and the block released.
// Buckets of up to 8 elements (the largest capacity is a template parameter: Log2 = 3).
#include "vp.h"
#include "arb.h"
#include "vec_contracts.h"

#include <vector>

#include "cista/containers/mutable_fws_multimap.h"

using namespace cista;

namespace {
using S = std::uint32_t;
constexpr S MAXN = 1u << 28;
constexpr unsigned LOG = 3;
using rm = raw::mutable_fws_multimap<S, std::uint32_t, LOG>;
using om = offset::mutable_fws_multimap<S, std::uint32_t, LOG>;
}  // namespace
VEC_CONTRACTS(ru32, raw::vector<std::uint32_t>)
VEC_CONTRACTS(ou32, offset::vector<std::uint32_t>)
VEC_CONTRACTS(ridx, rm::index_vec_t)
VEC_CONTRACTS(oidx, om::index_vec_t)

namespace {
template <typename V>
void arb_vec(V& v, S n, char const* nm) {
  using T = typename V::value_type;
  new (&v) V{};
  auto const cap = n + vp::any_size<S>("spare", 0, 1u << 20, 3);
  vp_assume(cap != 0);
  v.el_ = static_cast<T*>(vp_any_mem(static_cast<std::uint64_t>(cap) * sizeof(T), 4, 16, nm));
  v.used_size_ = n;
  v.allocated_size_ = cap;
  v.self_allocated_ = true;
}
struct block {
  bool disjoint(block const& o) const {
    return cap_ == 0 || o.cap_ == 0 || begin_ + cap_ <= o.begin_ || o.begin_ + o.cap_ <= begin_;
  }
  bool same(block const& o) const { return begin_ == o.begin_ && cap_ == o.cap_; }
  std::uint64_t begin_{0}, cap_{0};
  S size_{0};
};
inline bool capacity_ok(std::uint64_t c) { return c == 0 || c == 1 || c == 2 || c == 4 || c == 8; }
constexpr unsigned order(unsigned cap) { return cap == 8 ? 3 : cap == 4 ? 2 : cap == 2 ? 1 : 0; }

// Look: what else is observed: an arbitrary other bucket or an arbitrary free block
enum class look { bucket, free };
template <typename M, look Look = look::bucket>
struct state {
  using bucket = typename M::mutable_bucket;
  explicit state(unsigned cap) {
    new (&r_.v) M{};
    n_ = vp::any_size<S>("buckets", 1, MAXN, 5);
    m_ = vp::any_size<S>("data", 0, MAXN, 60);
    arb_vec(r_.v.index_, n_, "index");
    arb_vec(r_.v.data_, m_, "elements");
    for (unsigned o = 0; o <= LOG; ++o) {
      nf_[o] = vp::any_size<S>("free", 0, MAXN, 2);
      arb_vec(r_.v.free_buckets_[o], nf_[o], "freelist");
    }
    r_.v.element_count_ = cnt_ = vp::any_in<S>("count", 0, MAXN);
    t_ = vp::any_size<S>("t", 0, MAXN, 4);
    vp_assume(t_ < n_);
    b_ = vp::any_size<S>("b", 0, MAXN, 4);
    vp_index(t_);
    vp_index(b_);
#ifdef VP_NATIVE
    // blocks one after the other
    S at = 0;
    auto place = [&](auto& ix, S c, bool isfree) {
      if (at + c > m_) {
        c = 0;
      }
      if (isfree) {
        vp_assume(c != 0);
      }
      ix.size_ = isfree ? 0 : c == 0 ? 0 : ix.size_ % (c + 1);
      ix.begin_ = at;
      ix.capacity_ = c;
      at += c;
    };
    auto const mix = r_.v.index_[0].begin_;
    for (S i = 0; i != n_; ++i) {
      auto& ix = r_.v.index_[i];
      place(ix, i == t_ ? cap : (ix.capacity_ % 5 == 0 ? 0 : 1u << (ix.capacity_ % 4)), false);
      if (i == t_ && mix % 3 == 0) {
        ix.size_ = cap;
      }
      for (unsigned o = 0; o <= LOG && i == mix % n_; ++o) {
        for (auto& f : r_.v.free_buckets_[o]) {
          place(f, 1u << o, true);
        }
      }
    }
    if (mix % 2 == 0) {  // nothing behind the last block
      m_ = at;
      r_.v.data_.used_size_ = at;
    }
#endif
    bt_ = of(r_.v.index_.begin()[t_]);
    vp_assume(bt_.cap_ == cap);
    inside(bt_);
    other_ = Look == look::bucket;
    if constexpr (Look == look::bucket) {
      vp_assume(b_ < n_ && b_ != t_);
      bb_ = of(r_.v.index_.begin()[b_]);
      vp_assume(capacity_ok(bb_.cap_) && bb_.disjoint(bt_));
      inside(bb_);
    }
    free_ = Look == look::free;
    q_ = vp::any_size<S>("q", 0, MAXN, 2);
    vp_index(q_);
    if constexpr (Look == look::free) {
      o_ = vp::enumerate<LOG + 1>(vp::any_in<unsigned>("o", 0, LOG));
      vp_assume(q_ < nf_[o_]);
      bf_ = of(r_.v.free_buckets_[o_].begin()[q_]);
      vp_assume(bf_.cap_ == 1u << o_ && bf_.disjoint(bt_) && bf_.disjoint(bb_));
      inside(bf_);
    }
    j_ = vp::any_in<S>("j", 0, 8);
    i_ = vp::any_in<S>("i", 0, 8);
    in_b_ = other_ && vp_fork(j_ < bb_.size_);
    vp_index(bb_.begin_ + j_);
    old_b_ = in_b_ ? r_.v.data_.begin()[bb_.begin_ + j_] : 0;
    k_ = vp::any_in<S>("k", 0, 8);
    x_ = old(k_);
  }
  // the element at position k of the bucket before the operation
  std::uint32_t old(S k) {
    if (!vp_fork(k < bt_.size_)) {
      return 0;
    }
    vp_index(bt_.begin_ + k);
    return r_.v.data_.begin()[bt_.begin_ + k];
  }
  // the free block of order o that is taken next
  void next_free(unsigned o) {
    if (o <= LOG && vp_fork(nf_[o] != 0)) {
      auto const at = nf_[o] - 1;
      auto const g = of(r_.v.free_buckets_[o].begin()[at]);
      vp_assume(g.cap_ == 1u << o && g.disjoint(bt_) && g.disjoint(bb_));
      inside(g);
      if (free_ && o == o_ && vp_fork(q_ == at)) {
        taken_ = true;  // the arbitrary free block is the one taken
      } else {
        vp_assume(!free_ || g.disjoint(bf_));
      }
    }
  }
  template <typename I>
  static block of(I const& i) {
    return {i.begin_, i.capacity_, i.size_};
  }
  void inside(block const& x) {
    vp_assume(x.begin_ <= MAXN && x.cap_ <= 8 && x.size_ <= x.cap_ && x.begin_ + x.cap_ <= m_);
    vp_assume(x.size_ <= cnt_);
  }
  bucket t() { return r_.v[t_]; }
  // everything but bucket t is as before, the blocks stay disjoint
  void others(S expect_count, S expect_buckets = 0, bool count_t = true) {
    auto& c = r_.v;
    vp_assert(c.size() == (expect_buckets == 0 ? n_ : expect_buckets), "number of buckets");
    vp_assert(c.element_count() == expect_count, "number of elements");
    auto const nt = of(c.index_.begin()[t_]);
    auto const m = c.data_.size();
    vp_assert(capacity_ok(nt.cap_) && nt.size_ <= nt.cap_ && (nt.cap_ == 0 || nt.begin_ + nt.cap_ <= m), "the bucket's block is inside the data");
    (void)count_t;
    if (other_) {
      auto const nb = of(c.index_.begin()[b_]);
      vp_assert(nb.same(bb_) && nb.size_ == bb_.size_, "the other bucket stays where it is");
      vp_assert(bb_.cap_ == 0 || bb_.begin_ + bb_.cap_ <= m, "the other bucket's block is inside the data");
      vp_assert(nb.disjoint(nt), "buckets do not overlap");
      vp_assert(!in_b_ || c.data_.begin()[bb_.begin_ + j_] == old_b_, "the other bucket keeps its elements");
    }
    if (free_ && !taken_) {
      vp_assert(c.free_buckets_[o_].size() > q_ && of(c.free_buckets_[o_].begin()[q_]).same(bf_), "the free block stays free");
      vp_assert(bf_.begin_ + bf_.cap_ <= m && bf_.disjoint(nt), "a free block is not in use");
    }
    // what was released: exactly the old block of t when it moved
    for (unsigned o = 0; o <= LOG; ++o) {
      auto const sz = c.free_buckets_[o].size();
      if (sz > nf_[o]) {
        auto const x = of(c.free_buckets_[o].begin()[nf_[o]]);
        vp_assert(sz == nf_[o] + 1 && x.same(bt_) && x.cap_ == 1u << o && x.disjoint(nt), "only the block that was left is released");
      }
    }
  }
  // the bucket has that size and x at the arbitrary position k_
  void content(S size, std::uint32_t x) {
    auto const nt = of(r_.v.index_.begin()[t_]);
    vp_assert(nt.size_ == size && r_.v[t_].size() == size, "the size of a list after the same operation");
    if (vp_fork(k_ < size)) {
      vp_assert(r_.v.data_.begin()[nt.begin_ + k_] == x, "the elements of a list after the same operation");
    }
  }
  M& operator*() { return r_.v; }
  M* operator->() { return &r_.v; }
  vp::raw<M> r_;
  S n_, m_, cnt_, t_, b_, q_, j_, i_;
  S nf_[LOG + 1];
  block bt_, bb_, bf_;
  unsigned o_ = 0;
  bool other_, free_, in_b_, taken_ = false;
  S k_;  // an arbitrary position of the bucket
  std::uint32_t old_b_, x_;
};

// appending to a full bucket: grows to the next capacity, or is rejected at the largest
template <typename M, unsigned Cap, look Look>
void push_grow() {
  state<M, Look> s(Cap);
  vp_assume(s.bt_.size_ == Cap);
  s.next_free(Cap == 0 ? 0 : order(Cap) + 1);
  auto const x = vp::any<std::uint32_t>("x");
  auto thrown = false;
  S at = 0;
  try {
    auto b = s.t();
    at = vp_fork(vp::any<bool>("emplace")) ? b.emplace_back(x) : b.push_back(x);
  } catch (cista_exception const&) {
    thrown = true;
  }
  vp_assert(thrown == (Cap == 8), "rejected exactly at the largest size");
  if (thrown) {
    s.content(Cap, s.x_);
    s.others(s.cnt_);
    return;
  }
  s.others(s.cnt_ + 1);
  s.content(Cap + 1, s.k_ < Cap ? s.x_ : x);
  vp_assert(s->data_[at] == x, "returns where the element is");
}
// appending where there is room
template <typename M, unsigned Cap, look Look>
void push_room() {
  state<M, Look> s(Cap);
  vp_assume(s.bt_.size_ < Cap);
  auto const n = s.bt_.size_;
  auto const x = vp::any<std::uint32_t>("x");
  s.t().push_back(x);
  s.others(s.cnt_ + 1);
  s.content(n + 1, s.k_ < n ? s.x_ : x);
}
// appending an element of the multimap itself
template <typename M, unsigned Cap>
void push_own() {
  state<M> s(Cap);
  vp_assume(s.bt_.size_ == Cap && s.in_b_);
  s.next_free(Cap == 0 ? 0 : order(Cap) + 1);
  s.t().push_back(static_cast<M const&>(*s)[s.b_][s.j_]);
  s.others(s.cnt_ + 1);
  s.content(Cap + 1, s.k_ < Cap ? s.x_ : s.old_b_);
}
template <typename M, unsigned Cap, look Look>
void insert() {
  state<M, Look> s(Cap);
  auto const n = s.bt_.size_;
  if (vp_fork(n == Cap)) {
    vp_assume(Cap != 8);
    s.next_free(Cap == 0 ? 0 : order(Cap) + 1);
  }
  auto const p = vp::any_in<S>("p", 0, n);
  auto const x = vp::any<std::uint32_t>("x");
  auto const before = s.k_ == 0 ? 0 : s.old(s.k_ - 1);
  auto b = s.t();
  auto it = b.insert(b.begin() + p, x);
  vp_assert(it == b.begin() + p && *it == x, "returns the inserted element");
  s.others(s.cnt_ + 1);
  s.content(n + 1, s.k_ < p ? s.x_ : s.k_ == p ? x : before);
}
template <typename M, unsigned Cap, bool One, look Look>
void erase() {
  state<M, Look> s(Cap);
  auto const n = vp::enumerate<Cap + 1>(static_cast<unsigned>(s.bt_.size_));
  auto const p = vp::enumerate<Cap + 1>(vp::any_in<S>("p", 0, n));
  auto b = s.t();
  if (One) {
    vp_assume(p < n);
    auto const after = s.old(s.k_ + 1);
    auto const it = b.erase(b.begin() + p);
    vp_assert(it == b.begin() + p, "returns the next element");
    s.others(s.cnt_ - 1);
    s.content(n - 1, s.k_ < p ? s.x_ : after);
  } else {
    auto const e = vp::enumerate<Cap + 1>(vp::any_in<S>("e", p, n));
    auto const after = s.old(s.k_ + e - p);
    auto const it = b.erase(b.begin() + p, b.begin() + e);
    vp_assert(it == b.begin() + p, "returns the next element");
    s.others(s.cnt_ - (e - p));
    s.content(n - (e - p), s.k_ < p ? s.x_ : after);
  }
}
template <typename M, unsigned Cap, look Look>
void resize() {
  state<M, Look> s(Cap);
  auto const n = s.bt_.size_;
  auto const m = vp::enumerate<10>(vp::any_in<S>("m", 0, 9));
  auto const x = vp::any<std::uint32_t>("x");
  if (vp_fork(m > Cap && m <= 8)) {
    s.next_free(vp_fork(m > 4) ? 3 : vp_fork(m > 2) ? 2 : vp_fork(m > 1) ? 1 : 0);
  }
  auto thrown = false;
  try {
    s.t().resize(m, x);
  } catch (cista_exception const&) {
    thrown = true;
  }
  vp_assert(thrown == (m > 8), "rejected exactly beyond the largest size");
  if (thrown) {
    s.others(s.cnt_);
    s.content(n, s.x_);
  } else {
    s.others(s.cnt_ - n + m);
    s.content(m, s.k_ < n ? s.x_ : x);
  }
}
template <typename M, unsigned Cap, look Look>
void reserve() {
  state<M, Look> s(Cap);
  auto const n = s.bt_.size_;
  auto const m = vp::enumerate<9>(vp::any_in<S>("m", 0, 8));
  if (vp_fork(m > Cap)) {
    s.next_free(vp_fork(m > 4) ? 3 : vp_fork(m > 2) ? 2 : vp_fork(m > 1) ? 1 : 0);
  }
  s.t().reserve(m);
  vp_assert(s.t().capacity() >= m, "room for that many");
  s.others(s.cnt_);
  s.content(n, s.x_);
}
template <typename M, unsigned Cap, look Look>
void shrink() {
  state<M, Look> s(Cap);
  auto const n = s.bt_.size_;
  auto const how = vp::enumerate<3>(vp::any_in<unsigned>("how", 0, 2));
  if (how == 0) {
    s.t().pop_back();
    auto const m = n == 0 ? 0 : n - 1;
    s.others(s.cnt_ - (n - m));
    s.content(m, s.x_);
  } else if (how == 1) {
    s.t().clear();
    s.others(s.cnt_ - n);
    s.content(0, 0);
  } else {
    s->erase(s.t_);
    s.others(s.cnt_ - n);
    s.content(0, 0);
    vp_assert(s.t().capacity() == 0, "the block is released");
  }
}
template <typename M>
void create() {
  state<M> s(0);
  auto const i = vp::any_size<S>("new", 0, MAXN, 8);
  auto const how = vp::enumerate<3>(vp::any_in<unsigned>("how", 0, 2));
  if (how == 0) {
    auto b = (*s)[i];
    vp_assert(b.index() == i, "that bucket");
  } else if (how == 1) {
    auto b = s->get_or_create(i);
    vp_assert(b.index() == i, "that bucket");
  } else {
    vp_assume(i == s.n_);
    auto b = s->emplace_back();
    vp_assert(b.index() == i && b.size() == 0 && b.empty() && b.capacity() == 0, "a new empty bucket");
  }
  auto const now = i >= s.n_ ? i + 1 : s.n_;
  s.others(s.cnt_, now);
  auto const k = vp::any_size<S>("k", 0, MAXN, 8);
  vp_index(k);
  if (k >= s.n_ && k < now) {
    auto const x = s.of(s->index_.begin()[k]);
    vp_assert(x.cap_ == 0 && x.size_ == 0, "new buckets are empty");
  }
}
template <typename M>
void access() {
  state<M> s(4);
  auto const n = s.bt_.size_;
  M const& c = *s;
  auto b = s.t();
  auto const cb = c[s.t_];
  vp_assert(b.size() == n && cb.size() == n && b.empty() == (n == 0) && b.capacity() == 4 && cb.capacity() == 4 && b.index() == s.t_, "size");
  vp_assert(b.end() - b.begin() == n && cb.end() - cb.begin() == n && b.begin() == cb.begin() && b.cbegin() == cb.begin() && b.cend() == cb.end() &&
                begin(b) == b.begin() && end(b) == b.end(),
            "iteration length");
  auto const p = vp::any_in<S>("p", 0, 9);
  int t = 0;
  std::uint32_t x = 0, y = 0;
  try {
    x = b.at(p);
  } catch (std::out_of_range const&) {
    t |= 1;
  }
  try {
    y = cb.at(p);
  } catch (std::out_of_range const&) {
    t |= 2;
  }
  vp_assert(t == (p < n ? 0 : 3), "at rejects exactly what is out of range");
  if (p < n) {
    vp_assert(x == s.r_.v.data_.begin()[s.bt_.begin_ + p] && (p != s.k_ || x == s.x_) && y == x && b[p] == x && cb[p] == x && *(b.begin() + p) == x && b.bucket_index(b.begin() + p) == p, "element");
    auto const z = vp::any<std::uint32_t>("z");
    b[p] = z;
    s.others(s.cnt_);
    s.content(n, s.k_ == p ? z : s.x_);
    vp_assert(&b.front() == b.begin() && &b.back() == b.end() - 1 && &cb.front() == b.begin() && &cb.back() == b.end() - 1, "front and back");
  }
  t = 0;
  auto const k = vp::any_size<S>("k", 0, MAXN, 8);
  try {
    vp_assert(s->at(k).index() == k, "that bucket");
  } catch (std::out_of_range const&) {
    t |= 1;
  }
  try {
    vp_assert(c.at(k).index() == k, "that bucket");
  } catch (std::out_of_range const&) {
    t |= 2;
  }
  vp_assert(t == (k < s.n_ ? 0 : 3), "at rejects exactly the buckets out of range");
}
template <typename M>
void iterate() {
  state<M> s(0);
  auto& m = *s;
  M const& c = m;
  auto const b = m.begin(), e = m.end();
  auto const cb = c.begin(), ce = c.end();
  auto const n = static_cast<int>(s.n_);
  vp_assert(e - b == n && ce - cb == n && b - e == -n && b != e && b < e && e > b && b <= e && e >= b && begin(m) == b && end(c) == ce, "as many as buckets");
  auto it = b + static_cast<int>(s.t_);
  vp_assert((*it).index() == s.t_ && (*(cb + static_cast<int>(s.t_))).index() == s.t_ && b[static_cast<int>(s.t_)].index() == s.t_, "iteration agrees with indexing");
  auto j = it;
  ++j;
  vp_assert(j - it == 1, "next");
  --j;
  vp_assert(j == it, "previous");
  vp_assert(j++ == it && j - it == 1 && j-- == it + 1 && j == it, "postfix");
  j += 3;
  j -= 3;
  vp_assert(j == it && (it + 2) - 2 == it, "there and back");
  vp_assert(m.front().index() == 0 && m.back().index() == s.n_ - 1 && c.front().index() == 0 && c.back().index() == s.n_ - 1, "front and back");
}
template <typename M>
void clear_all() {
  state<M> s(2);
  s->clear();
  vp_assert(s->size() == 0 && s->empty() && s->data_size() == 0 && s->element_count() == 0, "nothing left");
  for (unsigned o = 0; o <= LOG; ++o) {
    vp_assert(s->free_buckets_[o].size() == 0, "no free block of the old data");
  }
}
}  // namespace
#define CAPS(tag, M) \
  OBLIGATION(push_grow_0_##tag) { push_grow<M, 0, look::bucket>(); } \
  OBLIGATION(push_grow_0_free_##tag) { push_grow<M, 0, look::free>(); } \
  OBLIGATION(push_grow_1_##tag) { push_grow<M, 1, look::bucket>(); } \
  OBLIGATION(push_grow_1_free_##tag) { push_grow<M, 1, look::free>(); } \
  OBLIGATION(push_grow_2_##tag) { push_grow<M, 2, look::bucket>(); } \
  OBLIGATION(push_grow_2_free_##tag) { push_grow<M, 2, look::free>(); } \
  OBLIGATION(push_grow_4_##tag) { push_grow<M, 4, look::bucket>(); } \
  OBLIGATION(push_grow_4_free_##tag) { push_grow<M, 4, look::free>(); } \
  OBLIGATION(push_full_##tag) { push_grow<M, 8, look::bucket>(); } \
  OBLIGATION(push_full_free_##tag) { push_grow<M, 8, look::free>(); } \
  OBLIGATION(push_room_2_##tag) { push_room<M, 2, look::bucket>(); } \
  OBLIGATION(push_room_2_free_##tag) { push_room<M, 2, look::free>(); } \
  OBLIGATION(push_room_8_##tag) { push_room<M, 8, look::bucket>(); } \
  OBLIGATION(push_room_8_free_##tag) { push_room<M, 8, look::free>(); } \
  OBLIGATION(push_own_##tag) { push_own<M, 2>(); } \
  OBLIGATION(insert_0_##tag) { insert<M, 0, look::bucket>(); } \
  OBLIGATION(insert_0_free_##tag) { insert<M, 0, look::free>(); } \
  OBLIGATION(insert_2_##tag) { insert<M, 2, look::bucket>(); } \
  OBLIGATION(insert_2_free_##tag) { insert<M, 2, look::free>(); } \
  OBLIGATION(insert_4_##tag) { insert<M, 4, look::bucket>(); } \
  OBLIGATION(insert_4_free_##tag) { insert<M, 4, look::free>(); } \
  OBLIGATION(erase_one_2_##tag) { erase<M, 2, true, look::bucket>(); } \
  OBLIGATION(erase_range_2_##tag) { erase<M, 2, false, look::bucket>(); } \
  OBLIGATION(erase_one_2_free_##tag) { erase<M, 2, true, look::free>(); } \
  OBLIGATION(erase_range_2_free_##tag) { erase<M, 2, false, look::free>(); } \
  OBLIGATION(erase_one_4_##tag) { erase<M, 4, true, look::bucket>(); } \
  OBLIGATION(erase_range_4_##tag) { erase<M, 4, false, look::bucket>(); } \
  OBLIGATION(erase_one_4_free_##tag) { erase<M, 4, true, look::free>(); } \
  OBLIGATION(erase_range_4_free_##tag) { erase<M, 4, false, look::free>(); } \
  OBLIGATION(resize_0_##tag) { resize<M, 0, look::bucket>(); } \
  OBLIGATION(resize_0_free_##tag) { resize<M, 0, look::free>(); } \
  OBLIGATION(resize_2_##tag) { resize<M, 2, look::bucket>(); } \
  OBLIGATION(resize_2_free_##tag) { resize<M, 2, look::free>(); } \
  OBLIGATION(resize_4_##tag) { resize<M, 4, look::bucket>(); } \
  OBLIGATION(resize_4_free_##tag) { resize<M, 4, look::free>(); } \
  OBLIGATION(reserve_0_##tag) { reserve<M, 0, look::bucket>(); } \
  OBLIGATION(reserve_0_free_##tag) { reserve<M, 0, look::free>(); } \
  OBLIGATION(reserve_2_##tag) { reserve<M, 2, look::bucket>(); } \
  OBLIGATION(reserve_2_free_##tag) { reserve<M, 2, look::free>(); } \
  OBLIGATION(shrink_0_##tag) { shrink<M, 0, look::bucket>(); } \
  OBLIGATION(shrink_0_free_##tag) { shrink<M, 0, look::free>(); } \
  OBLIGATION(shrink_4_##tag) { shrink<M, 4, look::bucket>(); } \
  OBLIGATION(shrink_4_free_##tag) { shrink<M, 4, look::free>(); } \
  OBLIGATION(create_##tag) { create<M>(); } \
  OBLIGATION(access_##tag) { access<M>(); } \
  OBLIGATION(iterate_##tag) { iterate<M>(); } \
  OBLIGATION(clear_all_##tag) { clear_all<M>(); }
CAPS(raw, rm)
CAPS(off, om)

// ------------------------------------------------------------- histories against lists (bounded)
namespace {
template <typename M>
void history() {
  M m;
  std::vector<std::vector<std::uint32_t>> want;
  auto const steps = vp::any_in<unsigned>("steps", 1, 60);
  auto const keys = vp::any_in<unsigned>("keys", 1, 6);
  std::uint32_t x = 0;
  for (unsigned st = 0; st != steps; ++st) {
    auto const op = vp::any_in<unsigned>("op", 0, 13);
    auto const k = vp::any_in<unsigned>("key", 0, 50) % keys;
    auto const a = vp::any_in<unsigned>("a", 0, 100), e = vp::any_in<unsigned>("e", 0, 100);
    auto const max = m.max_entries_per_bucket();
    if (op != 12 && op != 13 && want.size() <= k) {
      want.resize(k + 1);
    }
    auto* const w = op < 12 ? &want[k] : nullptr;
    switch (op) {
      case 0:
      case 1:
      case 2:
        if (w->size() < max) {
          m[k].push_back(++x);
          w->push_back(x);
        } else {
          auto thrown = false;
          try {
            m[k].push_back(x);
          } catch (cista_exception const&) {
            thrown = true;
          }
          vp_assert(thrown, "beyond the largest size");
        }
        break;
      case 3:
        (void)m.get_or_create(k);
        if (w->size() < max && !w->empty()) {
          m[k].push_back(m[k][0]);
          w->push_back((*w)[0]);
        }
        break;
      case 4:
      case 5:
        (void)m[k];
        if (w->size() < max) {
          auto b = m[k];
          auto const p = a % (w->size() + 1);
          auto it = b.insert(b.begin() + p, ++x);
          w->insert(w->begin() + p, x);
          vp_assert(*it == x, "inserted");
        }
        break;
      case 6:
        (void)m[k];
        if (!w->empty()) {
          auto b = m[k];
          b.erase(b.begin() + a % w->size());
          w->erase(w->begin() + a % w->size());
        }
        break;
      case 7: {
        auto b = m[k];
        auto const p = a % (w->size() + 1), q = p + e % (w->size() - p + 1);
        b.erase(b.begin() + p, b.begin() + q);
        w->erase(w->begin() + p, w->begin() + q);
        break;
      }
      case 8:
        m[k].resize(a % (max + 1), ++x);
        w->resize(a % (max + 1), x);
        break;
      case 9:
        m[k].reserve(a % (max + 1));
        break;
      case 10:
        if (e % 3 == 0) {
          m[k].clear();
          w->clear();
        } else {
          m[k].pop_back();
          if (!w->empty()) {
            w->pop_back();
          }
        }
        break;
      case 11:
        (void)m[k];
        m.erase(k);
        w->clear();
        break;
      case 12:
        if (a < 15) {
          m.clear();
          want.clear();
        } else {
          m.reserve(a, e);
        }
        break;
      default: {
        M const c{m};
        m = c;
      }
    }
    std::size_t total = 0;
    M const& c = m;
    vp_assert(m.size() == want.size(), "number of buckets");
    std::size_t n = 0;
    for (auto const& b : c) {
      vp_assert(b.size() == want[n].size() && std::equal(b.begin(), b.end(), want[n].begin()), "every bucket is its list");
      for (S i = 0; i != b.size(); ++i) {
        vp_assert(c.at(static_cast<S>(n)).at(i) == want[n][i] && m.at(static_cast<S>(n)).at(i) == want[n][i], "checked access");
      }
      total += b.size();
      ++n;
    }
    vp_assert(n == want.size() && total == m.element_count(), "all buckets, all elements");
  }
}
}  // namespace
NATIVE(history_raw) { history<rm>(); }
NATIVE(history_off) { history<om>(); }
NATIVE(history_large) { history<raw::mutable_fws_multimap<S, std::uint32_t>>(); }
