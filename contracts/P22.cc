// P22: a spatial index finds exactly the stored boxes that intersect a query.
// Contracts: the rectangle operations over arbitrary coordinates, the operations of a node over an
// arbitrary node, node allocation, split and insertion over an arbitrary set of nodes (any number),
// with MaxItems 4.  Natively: whole trees (MaxItems 3 to 64) against a list, with the structural
// invariant.
#include "vp.h"

#include <algorithm>
#include <cmath>
#include <set>
#include <vector>

#include "cista/mmap.h"

#include "cista/containers/rtree.h"

using namespace cista;

namespace {
template <typename N, unsigned D>
using tree_of = raw::rtree<std::uint64_t, D, N, 4U>;

template <typename N>
N coord(char const* n) {
#ifdef VP_NATIVE
  // small numbers, so that edges meet
  return static_cast<N>(static_cast<int>(vp::any_in<std::uint8_t>(n, 0, 12)) - 6);
#else
  if constexpr (std::is_floating_point_v<N>) {
    N x;
    auto const b = vp::any<std::conditional_t<sizeof(N) == 4, std::uint32_t, std::uint64_t>>(n);
    std::memcpy(&x, &b, sizeof(N));
    vp_assume(x == x);
    return x;
  } else {
    return vp::any_in<N>(n, N{-1000000}, N{1000000});
  }
#endif
}
template <typename R, typename N>
R box() {
  R r;
  for (auto d = 0U; d != r.min_.size(); ++d) {
    auto const a = coord<N>("min"), b = coord<N>("max");
#ifdef VP_NATIVE
    r.min_[d] = std::min(a, b);
    r.max_[d] = std::max(a, b);
#else
    vp_assume(a <= b);
    r.min_[d] = a;
    r.max_[d] = b;
#endif
  }
  return r;
}
// what the operations mean
template <typename R>
bool in(R const& a, R const& b) {  // b inside a
  auto r = true;
  for (auto d = 0U; d != a.min_.size(); ++d) {
    r &= (a.min_[d] <= b.min_[d]) & (b.max_[d] <= a.max_[d]);
  }
  return r;
}
template <typename R>
bool meet(R const& a, R const& b) {
  auto r = true;
  for (auto d = 0U; d != a.min_.size(); ++d) {
    r &= (a.min_[d] <= b.max_[d]) & (b.min_[d] <= a.max_[d]);
  }
  return r;
}
template <typename R>
bool same(R const& a, R const& b) {
  auto r = true;
  for (auto d = 0U; d != a.min_.size(); ++d) {
    r &= (a.min_[d] == b.min_[d]) & (a.max_[d] == b.max_[d]);
  }
  return r;
}
template <typename N, unsigned D>
void rect_relations() {
  using R = typename tree_of<N, D>::rect;
  auto a = box<R, N>();
  auto const b = box<R, N>();
  vp_assert(a.contains(b) == in(a, b), "contains");
  vp_assert(a.intersects(b) == meet(a, b), "intersects: the boxes share a point");
  vp_assert(a.equals(b) == same(a, b), "equals");
  auto edge = false;
  for (auto d = 0U; d != D; ++d) {
    edge |= a.min_[d] == b.min_[d] || a.max_[d] == b.max_[d];
  }
  vp_assert(a.onedge(b) == edge, "a side of one box is on a side of the other");
}
template <typename N, unsigned D>
void rect_expand() {
  using R = typename tree_of<N, D>::rect;
  auto a = box<R, N>();
  auto const old = a;
  auto const b = box<R, N>();
  a.expand(b);
  vp_assert(in(a, old) && in(a, b), "covers both boxes");
  for (auto d = 0U; d != D; ++d) {
    vp_assert((a.min_[d] == old.min_[d] || a.min_[d] == b.min_[d]) && (a.max_[d] == old.max_[d] || a.max_[d] == b.max_[d]), "no more than that");
  }
}
template <typename N, unsigned D>
void rect_axis() {
  using R = typename tree_of<N, D>::rect;
  auto const a = box<R, N>();
  auto const axis = a.largest_axis();
  vp_assert(axis < D, "an axis");
  if constexpr (!std::is_floating_point_v<N>) {
    for (auto d = 0U; d != D; ++d) {
      vp_assert(a.max_[d] - a.min_[d] <= a.max_[axis] - a.min_[axis], "no other side is longer");
    }
    auto area = N{1};
    (void)area;
  }
}
}  // namespace
#define RECT(N, D)                                                     \
  OBLIGATION(relations_##N##_##D) { rect_relations<N, D>(); }          \
  OBLIGATION(expand_##N##_##D) { rect_expand<N, D>(); }                \
  OBLIGATION(axis_##N##_##D) { rect_axis<N, D>(); }
using i64 = std::int64_t;
RECT(float, 1)
RECT(float, 2)
RECT(float, 3)
RECT(double, 2)
RECT(i64, 2)
RECT(i64, 3)

// --------------------------------------------------------------------------------------- nodes
namespace {
using T2 = tree_of<float, 2>;
using node_t = T2::node;
using rect_t = T2::rect;
using kind_t = T2::kind;
constexpr unsigned M = 4;
constexpr std::uint32_t NIL = 0xFFFFFFFFU;

// the entry of a node at a position: box and data (leaf) or child (branch)
template <typename R>
struct entry_of {
  R box_;
  std::uint64_t value_;
};
using entry = entry_of<rect_t>;
template <typename Node>
std::uint64_t value(Node const& n, unsigned i) {
  return static_cast<int>(n.kind_) == 0 ? n.data_[i] : to_idx(n.children_[i]);
}
template <typename Node>
auto get(Node const& n, unsigned i) {
  return entry_of<std::decay_t<decltype(n.rects_[0])>>{n.rects_[i], value(n, i)};
}
template <typename Node, typename E>
bool is(Node const& n, unsigned i, E const& e) { return (value(n, i) == e.value_) & same(n.rects_[i], e.box_); }
template <typename Node, typename E>
unsigned times(Node const& n, E const& e) {
  auto r = 0U;
  for (auto i = 0U; i != M; ++i) {
    r += (i < n.count_ && is(n, i, e)) ? 1U : 0U;
  }
  return r;
}
template <typename Node>
void fill(Node& n, unsigned count, bool leaf) {
  n.count_ = count;
  n.kind_ = static_cast<decltype(n.kind_)>(leaf ? 0 : 1);
  for (auto i = 0U; i != M; ++i) {
    n.rects_[i] = box<std::decay_t<decltype(n.rects_[0])>, float>();
    if (leaf) {
      n.data_[i] = vp::any<std::uint64_t>("data");
    } else {
      n.children_[i] = std::decay_t<decltype(n.children_[0])>{vp::any<std::uint32_t>("child")};
    }
  }
}
struct any_node {
  explicit any_node(bool leaf, unsigned least = 0, unsigned most = M) {
    std::memset(static_cast<void*>(&r_.v), 0, sizeof(node_t));
    n_ = least == most ? least : vp::enumerate<M + 1>(vp::any_in<unsigned>("count", least, most));
    fill(r_.v, n_, leaf);
    k_ = vp::any_in<unsigned>("k", 0, M - 1);
    has_ = vp_fork(k_ < n_);
    k_ = vp::enumerate<M>(k_);
    e_ = get(r_.v, k_);
  }
  node_t* operator->() { return &r_.v; }
  vp::raw<node_t> r_;
  unsigned n_, k_;
  entry e_;
  bool has_;
};
template <bool LEAF>
void node_swap() {
  any_node s{LEAF, 1};
  auto const i = vp::enumerate<M>(vp::any_in<unsigned>("i", 0, M - 1)), j = vp::enumerate<M>(vp::any_in<unsigned>("j", 0, M - 1));
  vp_assume(i < s.n_ && j < s.n_ && s.has_);
  s->swap(i, j);
  vp_assert(s->count_ == s.n_, "the number of entries");
  vp_assert(is(s.r_.v, s.k_ == i ? j : s.k_ == j ? i : s.k_, s.e_), "exactly the two entries change places");
}
template <bool LEAF>
void node_move() {
  any_node s{LEAF, 1}, t{LEAF};
  vp_assume(t.n_ < M);
  auto const i = vp::enumerate<M>(vp::any_in<unsigned>("i", 0, M - 1));
  vp_assume(i < s.n_ && s.has_);
  s->move_rect_at_index_into(i, t.r_.v);
  vp_assert(s->count_ == s.n_ - 1 && t->count_ == t.n_ + 1, "one entry moves");
  if (s.k_ == i) {
    vp_assert(is(t.r_.v, t.n_, s.e_), "the entry asked for");
  } else {
    vp_assert(is(s.r_.v, s.k_ == s.n_ - 1 ? i : s.k_, s.e_), "the other entries stay");
  }
  if (t.has_) {
    vp_assert(is(t.r_.v, t.k_, t.e_), "and those of the other node");
  }
}
template <unsigned D, bool LEAF, unsigned C>
void node_box() {
  using T = tree_of<float, D>;
  vp::raw<typename T::node> r;
  auto& s = r.v;
  s.count_ = C;
  s.kind_ = LEAF ? T::kind::kLeaf : T::kind::kBranch;
  for (auto& x : s.rects_) {
    x = box<typename T::rect, float>();
  }
  auto const b = s.bounding_box();
  auto cover = true, tight = true;
  for (auto i = 0U; i != C; ++i) {
    cover &= in(b, s.rects_[i]);
  }
  for (auto d = 0U; d != D; ++d) {
    auto lo = false, hi = false;
    for (auto i = 0U; i != C; ++i) {
      lo |= s.rects_[i].min_[d] == b.min_[d];
      hi |= s.rects_[i].max_[d] == b.max_[d];
    }
    tight &= lo & hi;
  }
  vp_assert(cover, "covers every entry");
  vp_assert(tight, "no larger than needed");
}
template <unsigned D, unsigned C>
void node_least() {
  using T = tree_of<float, D>;
  vp::raw<typename T::node> r;
  r.v.count_ = C;
  r.v.kind_ = T::kind::kBranch;
  for (auto& x : r.v.rects_) {
    x = box<typename T::rect, float>();
  }
  vp_assert(r.v.choose_least_enlargement(box<typename T::rect, float>()) < C, "an entry of the node");
}
template <bool LEAF, unsigned C, bool REV, bool MAX>
void node_sort() {
  any_node s{LEAF, C, C};
  auto const axis = vp::enumerate<2>(vp::any_in<unsigned>("axis", 0, 1));
  auto const before = times(s.r_.v, s.e_);
  s->sort_by_axis(axis, REV, MAX);
  vp_assert((s->count_ == C) & (times(s.r_.v, s.e_) == before), "the same entries");
  auto order = true;
  for (auto i = 0U; i + 1 < C; ++i) {
    auto const a = MAX ? s->rects_[i].max_[axis] : s->rects_[i].min_[axis];
    auto const b = MAX ? s->rects_[i + 1].max_[axis] : s->rects_[i + 1].min_[axis];
    order &= REV ? b <= a : a <= b;
  }
  vp_assert(order, "in order");
}
template <bool LEAF, unsigned C>
void node_choose() {
  using T = tree_of<float, 1>;
  vp::raw<typename T::node> r;
  r.v.count_ = C;
  r.v.kind_ = LEAF ? T::kind::kLeaf : T::kind::kBranch;
  for (auto& x : r.v.rects_) {
    x = box<typename T::rect, float>();
  }
  T t;
  auto const depth = vp::any<std::uint32_t>("depth");
  for (auto& h : t.m_.path_hint_) {
    h = vp::any<std::uint32_t>("hint");
  }
  vp_assert(t.node_choose(r.v, box<typename T::rect, float>(), depth) < C, "an entry of the node");
  vp_assert(r.v.count_ == C, "the node stays");
}
}  // namespace
#define NODE(X, L)                                  \
  OBLIGATION(node_swap_##X) { node_swap<L>(); }     \
  OBLIGATION(node_move_##X) { node_move<L>(); }
#define COUNT(X, L, C)                                              \
  OBLIGATION(node_sort_##X##_##C) { node_sort<L, C, true, false>(); }     \
  OBLIGATION(node_sort_max_##X##_##C) { node_sort<L, C, true, true>(); }  \
  OBLIGATION(node_sort_up_##X##_##C) { node_sort<L, C, false, false>(); } \
  OBLIGATION(node_choose_##X##_##C) { node_choose<L, C>(); }
NODE(leaf, true)
NODE(branch, false)
#define BOX(D, C)                                                      \
  OBLIGATION(node_box_leaf_##D##_##C) { node_box<D, true, C>(); }      \
  OBLIGATION(node_box_branch_##D##_##C) { node_box<D, false, C>(); }   \
  OBLIGATION(node_least_##D##_##C) { node_least<D, C>(); }
BOX(1, 1)
BOX(1, 2)
BOX(1, 3)
BOX(1, 4)
BOX(2, 1)
BOX(2, 2)
BOX(2, 3)
COUNT(leaf, true, 2)
COUNT(leaf, true, 3)
COUNT(leaf, true, 4)
COUNT(branch, false, 2)
COUNT(branch, false, 3)
COUNT(branch, false, 4)

// --------------------------------------------------------------------------------- sets of nodes
namespace {
// a tree with any number of nodes: one of them (x_) arbitrary with M entries at most, another one (o_) observed
struct nodes {
  explicit nodes(bool leaf, unsigned least = 0, unsigned most = M, std::uint32_t spare = 0) {
    new (&t_.v) T2{};
    n_ = vp::any_size<std::uint32_t>("nodes", 2, 1U << 20, 9);
    cap_ = n_ + vp::any_size<std::uint32_t>("spare", spare, 1U << 20, 3);
    auto* const p = static_cast<node_t*>(vp_any_mem(std::uint64_t{cap_} * sizeof(node_t), 4, 16, "nodes"));
    t_.v.nodes_.el_ = p;
    t_.v.nodes_.used_size_ = n_;
    t_.v.nodes_.allocated_size_ = cap_;
    t_.v.nodes_.self_allocated_ = true;
    x_ = vp::any_size<std::uint32_t>("x", 0, 1U << 20, 9);
    o_ = vp::any_size<std::uint32_t>("o", 0, 1U << 20, 9);
    vp_assume(x_ < n_ && o_ < n_ && x_ != o_);
    c_ = least == most ? least : vp::enumerate<M + 1>(vp::any_in<unsigned>("count", least, most));
    fill(p[x_], c_, leaf);
    k_ = vp::enumerate<M>(vp::any_in<unsigned>("k", 0, M - 1));
    has_ = k_ < c_;
    e_ = get(p[x_], k_);
    w_ = vp::any_in<std::uint32_t>("word", 0, sizeof(node_t) / 4 - 1);
    vp_index(std::uint64_t{o_} * (sizeof(node_t) / 4) + w_);
    ow_ = word();
  }
  std::uint32_t word() const {
    std::uint32_t x;
    std::memcpy(&x, reinterpret_cast<std::uint8_t const*>(t_.v.nodes_.begin() + o_) + 4ULL * w_, 4);
    return x;
  }
  void others_same() const { vp_assert(word() == ow_, "the other nodes stay"); }
  node_t& at(std::uint32_t i) { return t_.v.nodes_.begin()[i]; }
  vp::raw<T2> t_;
  std::uint32_t n_, cap_, x_, o_, w_, ow_;
  unsigned c_, k_;
  entry e_;
  bool has_;
};
using idx = T2::node_idx_t;
// three nodes, the one in the middle arbitrary; room for another one
template <unsigned D>
struct few {
  using T = tree_of<float, D>;
  explicit few(bool leaf, unsigned least, unsigned) {
    new (&t_.v) T{};
    std::memset(static_cast<void*>(mem_), 0, sizeof(mem_));
    t_.v.nodes_.el_ = mem_;
    t_.v.nodes_.used_size_ = 3;
    t_.v.nodes_.allocated_size_ = 4;
    t_.v.nodes_.self_allocated_ = false;
    c_ = least;
    fill(mem_[1], c_, leaf);
    k_ = vp::enumerate<M>(vp::any_in<unsigned>("k", 0, M - 1));
    has_ = k_ < c_;
    e_ = get(mem_[1], k_);
    mem_[0].count_ = v_ = vp::any<std::uint32_t>("0");
    mem_[2].count_ = w_ = vp::any<std::uint32_t>("2");
  }
  void others_same() const { vp_assert((mem_[0].count_ == v_) & (mem_[2].count_ == w_), "the other nodes stay"); }
  typename T::node& at(std::uint32_t i) { return mem_[i]; }
  vp::raw<T> t_;
  typename T::node mem_[4];
  std::uint32_t v_, w_;
  static constexpr std::uint32_t n_ = 3, x_ = 1;
  unsigned c_, k_;
  entry_of<typename T::rect> e_;
  bool has_;
};
template <bool LEAF>
void leaf_or_branch_new() {
  nodes s{true, 1, 1, 1};
  auto const k = LEAF ? kind_t::kLeaf : kind_t::kBranch;
  s.t_.v.m_.free_list_ = idx{NIL};
  auto const i = s.t_.v.node_new(k);
  vp_assert(to_idx(i) == s.n_ && s.t_.v.nodes_.size() == s.n_ + 1, "a new node");
  vp_assert(s.at(s.n_).kind_ == k && s.at(s.n_).count_ == 0, "empty");
  vp_assert(to_idx(s.t_.v.m_.free_list_) == NIL, "the free list stays empty");
  s.others_same();
}
void free_and_new() {
  nodes s{true};
  auto& m = s.t_.v.m_;
  auto const head = vp_fork(vp::any<bool>("empty")) ? NIL : vp::any_in<std::uint32_t>("head", 0, 1U << 20);
  m.free_list_ = idx{head};
  s.t_.v.add_to_free_list(idx{s.x_});
  vp_assert(to_idx(m.free_list_) == s.x_, "free");
  s.others_same();
  auto const i = s.t_.v.node_new(kind_t::kBranch);
  if (head == NIL || s.at(s.x_).kind_ != kind_t::kEndFreeList) {
    vp_assert(to_idx(i) == s.x_ && s.at(s.x_).kind_ == kind_t::kBranch && s.at(s.x_).count_ == 0, "used again, empty");
    vp_assert(to_idx(m.free_list_) == head && s.t_.v.nodes_.size() == s.n_, "and no longer free");
  }
  s.others_same();
}
template <unsigned D, bool LEAF, unsigned C>
void split() {
  few<D> s{LEAF, C, C};
  using T = tree_of<float, D>;
  auto& m = s.t_.v.m_;
  m.free_list_ = typename T::node_idx_t{NIL};
  auto const before = s.has_ ? times(s.at(s.x_), s.e_) : 0U;
  auto const r = box<typename T::rect, float>();
  auto right = typename T::node_idx_t{NIL};
  s.t_.v.node_split(r, typename T::node_idx_t{s.x_}, right);
  auto const& a = s.at(s.x_);
  auto const& b = s.at(to_idx(right));
  vp_assert(to_idx(right) == s.n_ && s.t_.v.nodes_.size() == s.n_ + 1, "one more node");
  vp_assert(a.count_ >= T::kSplitMinItems && b.count_ >= T::kSplitMinItems && a.count_ + b.count_ == s.c_, "all entries, none of the nodes is empty");
  vp_assert(a.kind_ == b.kind_ && a.kind_ == (LEAF ? T::kind::kLeaf : T::kind::kBranch), "the same kind of node");
  if (s.has_) {
    vp_assert(times(a, s.e_) + times(b, s.e_) == before, "every entry is in one of the two nodes");
  }
  s.others_same();
}
void insert_leaf() {
  nodes s{true};
  auto const b = box<rect_t, float>();
  auto const d = vp::any<std::uint64_t>("data");
  auto full = vp::any<bool>("split");
  s.t_.v.node_insert(b, idx{s.x_}, b, d, 0, full);
  auto const& a = s.at(s.x_);
  vp_assert(full == (s.c_ == M), "a full node has to be split first");
  vp_assert(a.count_ == s.c_ + (full ? 0U : 1U) && a.kind_ == kind_t::kLeaf, "one entry more");
  if (!full) {
    vp_assert(is(a, s.c_, entry{b, d}), "the new entry");
  }
  if (s.has_) {
    vp_assert(is(a, s.k_, s.e_), "the other entries stay");
  }
  s.others_same();
}
template <unsigned C>
void search_leaf() {
  few<2> s{true, C, C};
  auto const q = box<rect_t, float>();
  auto calls = 0U, hit = 0U, stop = vp::any_in<unsigned>("stop", 0, M + 1);
  auto const all = s.t_.v.node_search(s.at(s.x_), q, [&](auto const& lo, auto const& hi, std::uint64_t const d) {
    ++calls;
    hit += ((d == s.e_.value_) & same(rect_t{lo, hi}, s.e_.box_)) ? 1U : 0U;
    vp_assert(meet(rect_t{lo, hi}, q), "only boxes that intersect the query");
    return calls != stop;
  });
  auto want = 0U, found = 0U;
  for (auto i = 0U; i != s.c_; ++i) {
    auto const m = meet(s.at(s.x_).rects_[i], q);
    want += m ? 1U : 0U;
    found += (m & is(s.at(s.x_), i, s.e_)) ? 1U : 0U;
  }
  vp_assert(all == !(stop != 0 && stop <= want), "stops when told to");
  vp_assert(calls == (all ? want : stop), "each of them once");
  if (all && s.has_) {
    vp_assert(hit == found, "each of them");
  }
  s.others_same();
}
template <unsigned D, unsigned C>
void delete_leaf() {
  few<D> s{true, C, C};
  using T = tree_of<float, D>;
  using rect_t = typename T::rect;
  auto nr = box<rect_t, float>();
  auto const d = vp::any<std::uint64_t>("data");
  auto b = box<rect_t, float>();
  auto const old = nr;
  auto removed = vp::any<bool>("removed"), shrunk = vp::any<bool>("shrunk");
  auto at = M;
  for (auto i = s.c_; i != 0; --i) {
    if (is(s.at(s.x_), i - 1, entry_of<rect_t>{b, d})) {
      at = i - 1;
    }
  }
  s.t_.v.node_delete(nr, typename T::node_idx_t{s.x_}, b, 0, removed, shrunk, [&](auto const& lo, auto const& hi, std::uint64_t const x) { return x == d && same(rect_t{lo, hi}, b); });
  auto const& a = s.at(s.x_);
  vp_assert(removed == (at != M) && a.count_ == s.c_ - (removed ? 1U : 0U), "removes one such entry");
  if (s.has_ && !(removed && s.k_ == at)) {
    vp_assert(is(a, removed && s.k_ == s.c_ - 1 ? at : s.k_, s.e_), "the other entries stay");
    vp_assert(!in(old, s.e_.box_) || in(nr, s.e_.box_), "and are covered");
  }
  if (!shrunk) {
    vp_assert(same(nr, old), "the box stays unless told");
  }
  s.others_same();
}
// a branch (1) over two leaves (2, 3) with C0 and C1 entries, the boxes of the branch cover them
template <unsigned D, unsigned C0, unsigned C1>
struct two_levels {
  using T = tree_of<float, D>;
  using R = typename T::rect;
  using I = typename T::node_idx_t;
  static constexpr std::uint32_t cap = 6;
  two_levels() {
    new (&t_.v) T{};
    std::memset(static_cast<void*>(mem_), 0, sizeof(mem_));
    t_.v.nodes_.el_ = mem_;
    t_.v.nodes_.used_size_ = 4;
    t_.v.nodes_.allocated_size_ = cap;
    t_.v.nodes_.self_allocated_ = false;
    t_.v.m_.path_hint_[0] = vp::any_in<std::uint32_t>("hint", 0, 2);
    fill(mem_[1], 2, false);
    mem_[1].children_[0] = I{2};
    mem_[1].children_[1] = I{3};
    fill(mem_[2], C0, true);
    fill(mem_[3], C1, true);
    mem_[0].kind_ = T::kind::kEndFreeList;
    for (auto i = 0U; i != 2; ++i) {
      auto cover = true;
      for (auto j = 0U; j != mem_[2 + i].count_; ++j) {
#ifdef VP_NATIVE
        mem_[1].rects_[i].expand(mem_[2 + i].rects_[j]);
#endif
        cover &= in(mem_[1].rects_[i], mem_[2 + i].rects_[j]);
      }
      vp_assume(cover);
    }
    auto& m = t_.v.m_;
    m.root_ = I{1};
    m.height_ = 2;
    m.count_ = C0 + C1;
    m.rect_ = mem_[1].rects_[0];
    m.rect_.expand(mem_[1].rects_[1]);
    auto const k = vp::enumerate<C0 + C1>(vp::any_in<unsigned>("k", 0, C0 + C1 - 1));
    e_ = k < C0 ? get(mem_[2], k) : get(mem_[3], k - C0);
    before_ = all(e_);
  }
  // how often an entry is stored in the leaves below the root
  unsigned all(entry_of<R> const& e) const {
    auto const& root = t_.v.get_node(t_.v.m_.root_);
    if (root.kind_ == T::kind::kLeaf) {
      return times(root, e);
    }
    auto r = 0U;
    for (auto i = 0U; i != root.count_; ++i) {
      r += times(t_.v.get_node(root.children_[i]), e);
    }
    return r;
  }
  void check() const {
    auto const& root = t_.v.get_node(t_.v.m_.root_);
    auto n = 0U;
    auto cover = true, sane = root.count_ >= 1 && root.count_ <= M;
    for (auto i = 0U; i != root.count_; ++i) {
      cover &= in(t_.v.m_.rect_, root.rects_[i]);
      if (root.kind_ == T::kind::kBranch) {
        auto const& c = t_.v.get_node(root.children_[i]);
        sane &= c.kind_ == T::kind::kLeaf && c.count_ >= 1 && c.count_ <= M;
        for (auto j = 0U; j != c.count_; ++j) {
          cover &= in(root.rects_[i], c.rects_[j]);
        }
        n += c.count_;
      } else {
        n += 1;
      }
    }
    vp_assert(sane, "a tree");
    vp_assert(cover, "every box covers those below it");
    vp_assert(n == t_.v.m_.count_, "the number of entries");
    vp_assert(t_.v.m_.height_ == (root.kind_ == T::kind::kBranch ? 2 : 1), "the height");
  }
  vp::raw<T> t_;
  typename T::node mem_[cap];
  entry_of<R> e_;
  unsigned before_;
};
template <unsigned D, unsigned C0, unsigned C1>
void insert_two() {
  two_levels<D, C0, C1> s;
  using R = typename tree_of<float, D>::rect;
  auto const b = box<R, float>();
  auto const d = vp::any<std::uint64_t>("data");
  auto const x = entry_of<R>{b, d};
  auto const had = s.all(x);
  s.t_.v.insert(b.min_, b.max_, d);
  vp_assert(s.t_.v.m_.count_ == C0 + C1 + 1, "one entry more");
  s.check();
  vp_assert(s.all(x) == had + 1, "the new entry");
  vp_assert(s.all(s.e_) >= s.before_, "the others stay");
}
template <unsigned D, unsigned C0, unsigned C1>
void delete_two() {
  two_levels<D, C0, C1> s;
  auto const e = s.e_;
  s.t_.v.delete_element(e.box_.min_, e.box_.max_, e.value_);
  vp_assert(s.t_.v.m_.count_ == C0 + C1 - 1, "one entry less");
  s.check();
  vp_assert(s.all(e) == s.before_ - 1, "this entry");
}
template <unsigned D, unsigned C0, unsigned C1>
void search_two() {
  two_levels<D, C0, C1> s;
  using R = typename tree_of<float, D>::rect;
  auto const q = box<R, float>();
  auto calls = 0U, hit = 0U, stop = vp::any_in<unsigned>("stop", 0, C0 + C1 + 1);
  auto good = true;
  auto const& t = s.t_.v;
  t.search(q.min_, q.max_, [&](auto const& lo, auto const& hi, std::uint64_t const d) {
    ++calls;
    hit += ((d == s.e_.value_) & same(R{lo, hi}, s.e_.box_)) ? 1U : 0U;
    good &= meet(R{lo, hi}, q);
    return calls != stop;
  });
  auto want = 0U;
  for (auto i = 2U; i != 4U; ++i) {
    for (auto j = 0U; j != s.mem_[i].count_; ++j) {
      want += meet(s.mem_[i].rects_[j], q) ? 1U : 0U;
    }
  }
  vp_assert(good, "only boxes that intersect the query");
  vp_assert(calls == (stop != 0 && stop < want ? stop : want), "each of them once, until told to stop");
  if (stop == 0) {
    vp_assert(hit == (meet(s.e_.box_, q) ? s.before_ : 0U), "each of them");
  }
}
}  // namespace
OBLIGATION(new_leaf) { leaf_or_branch_new<true>(); }
OBLIGATION(new_branch) { leaf_or_branch_new<false>(); }
OBLIGATION(free_list) { free_and_new(); }
OBLIGATION(split_leaf_1_2) { split<1, true, 2>(); }
OBLIGATION(split_leaf_1_3) { split<1, true, 3>(); }
OBLIGATION(split_leaf_1_4) { split<1, true, 4>(); }
OBLIGATION(split_branch_1_2) { split<1, false, 2>(); }
OBLIGATION(split_branch_1_3) { split<1, false, 3>(); }
OBLIGATION(split_branch_1_4) { split<1, false, 4>(); }
OBLIGATION(insert_in_leaf) { insert_leaf(); }
OBLIGATION(search_in_leaf_0) { search_leaf<0>(); }
OBLIGATION(delete_in_leaf_0) { delete_leaf<2, 0>(); }
OBLIGATION(search_in_leaf_1) { search_leaf<1>(); }
OBLIGATION(delete_in_leaf_1) { delete_leaf<2, 1>(); }
OBLIGATION(search_in_leaf_2) { search_leaf<2>(); }
OBLIGATION(delete_in_leaf_2) { delete_leaf<2, 2>(); }
OBLIGATION(search_in_leaf_3) { search_leaf<3>(); }
OBLIGATION(delete_in_leaf_3) { delete_leaf<1, 3>(); }
OBLIGATION(search_in_leaf_4) { search_leaf<4>(); }
NATIVE(delete_in_leaf_4) { delete_leaf<1, 4>(); }


#define TWO(A, B)                                                    \
  NATIVE(insert_two_##A##_##B) { insert_two<1, A, B>(); }            \
  NATIVE(delete_two_##A##_##B) { delete_two<1, A, B>(); }            \
  OBLIGATION(search_two_##A##_##B) { search_two<1, A, B>(); }
TWO(1, 1)
TWO(1, 2)
TWO(2, 2)
NATIVE(insert_two_4_1) { insert_two<1, 4, 1>(); }
OBLIGATION(search_two_2d) { search_two<2, 1, 2>(); }

// ---------------------------------------------------------------------------------- whole trees
#ifdef VP_NATIVE
#include <unistd.h>
#include <algorithm>
#include <string>
namespace {
template <typename Tree, typename N, unsigned D, unsigned MAX>
struct model {
  using rect = typename Tree::rect;
  using coord_t = typename Tree::coord_t;
  struct item {
    coord_t lo_, hi_;
    std::uint64_t d_;
    bool operator==(item const& o) const { return lo_ == o.lo_ && hi_ == o.hi_ && d_ == o.d_; }
    bool operator<(item const& o) const {
      for (auto i = 0U; i != D; ++i) {
        if (lo_[i] != o.lo_[i]) return lo_[i] < o.lo_[i];
        if (hi_[i] != o.hi_[i]) return hi_[i] < o.hi_[i];
      }
      return d_ < o.d_;
    }
  };
  explicit model(Tree& t) : t_{t} {
    range_ = vp::any_in<unsigned>("range", 0, 3) == 0 ? 3U : vp::any_in<unsigned>("width", 4, 200);
    shape_ = vp::any_in<unsigned>("shape", 0, 4);
  }
  N number(char const* n) {
    auto const x = static_cast<int>(vp::any_in<unsigned>(n, 0, range_)) - static_cast<int>(range_ / 2);
    if constexpr (std::is_floating_point_v<N>) {
      return static_cast<N>(x) * static_cast<N>(0.25);
    } else {
      return static_cast<N>(x);
    }
  }
  item any_item() {
    item e;
    for (auto i = 0U; i != D; ++i) {
      auto a = number("a"), b = number("b");
      if (shape_ == 0) {  // points
        b = a;
      } else if (shape_ == 1) {  // small boxes
        b = a + static_cast<N>(1);
      } else if (shape_ == 2) {  // a line, in order
        a = b = i == 0 ? static_cast<N>(range_ % 2 == 0 ? next_ : 10000 - next_) : static_cast<N>(0);
      } else if (shape_ == 4 && i == 1) {
        a = b = static_cast<N>(-3);
      }
      e.lo_[i] = std::min(a, b);
      e.hi_[i] = std::max(a, b);
    }
    // some entries are equal
    e.d_ = vp::any_in<unsigned>("twin", 0, 9) == 0 ? next_ / 2 : next_;
    ++next_;
    return e;
  }
  static bool meet(item const& a, coord_t const& lo, coord_t const& hi) {
    for (auto i = 0U; i != D; ++i) {
      if (a.lo_[i] > hi[i] || lo[i] > a.hi_[i]) {
        return false;
      }
    }
    return true;
  }
  static bool covers(rect const& r, rect const& c) {
    for (auto i = 0U; i != D; ++i) {
      if (c.min_[i] < r.min_[i] || c.max_[i] > r.max_[i]) {
        return false;
      }
    }
    return true;
  }
  void insert() {
    auto const e = !all_.empty() && vp::any_in<unsigned>("again", 0, 9) == 0 ? all_[vp::any_in<std::size_t>("which", 0, all_.size() - 1)] : any_item();
    t_.insert(e.lo_, e.hi_, e.d_);
    all_.push_back(e);
  }
  void erase() {
    auto e = any_item();
    auto const how = vp::any_in<unsigned>("how", 0, 9);
    auto pos = all_.size();
    if (!all_.empty() && how != 0) {
      pos = vp::any_in<std::size_t>("which", 0, all_.size() - 1);
      e = all_[pos];
      if (how == 1) {  // same box, other data
        e.d_ = ~e.d_;
        pos = all_.size();
      }
    } else {
      e.d_ = ~e.d_;
    }
    if (how == 2 && pos != all_.size()) {
      auto const box = e;
      auto done = false;
      // any entry with this box: the tree picks, the list follows
      t_.delete_element_with_function(e.lo_, e.hi_, [&](coord_t const& lo, coord_t const& hi, std::uint64_t const& d) {
        if (!done && lo == box.lo_ && hi == box.hi_) {
          done = true;
          e.d_ = d;
          return true;
        }
        return false;
      });
      vp_assert(done, "an entry is found by its box");
      pos = static_cast<std::size_t>(std::find(begin(all_), end(all_), e) - begin(all_));
      vp_assert(pos != all_.size(), "and is one of those stored");
    } else {
      t_.delete_element(e.lo_, e.hi_, e.d_);
    }
    if (pos != all_.size()) {
      all_.erase(std::find(begin(all_), end(all_), e));
    }
  }
  void search() {
    auto const q = any_item();
    auto const stop = vp::any_in<unsigned>("stop", 0, 3) == 0 ? vp::any_in<unsigned>("after", 1, 5) : ~0U;
    std::vector<item> got, want;
    Tree const& t = t_;
    t.search(q.lo_, q.hi_, [&](coord_t const& lo, coord_t const& hi, std::uint64_t const& d) {
      got.push_back({lo, hi, d});
      return got.size() != stop;
    });
    for (auto const& e : all_) {
      if (meet(e, q.lo_, q.hi_)) {
        want.push_back(e);
      }
    }
    vp_assert(got.size() == std::min<std::size_t>(stop, want.size()), "each entry once, until told to stop");
    std::sort(begin(got), end(got));
    std::sort(begin(want), end(want));
    vp_assert(std::includes(begin(want), end(want), begin(got), end(got)), "exactly the entries that intersect the query");
  }
  std::size_t below(std::uint32_t n, unsigned depth, rect const& outer, std::vector<int>& seen, std::vector<item>& got) {
    vp_assert(n < t_.nodes_.size(), "a node of the tree");
    auto const& x = t_.get_node(typename Tree::node_idx_t{n});
    vp_assert(seen[n]++ == 0, "no node is reachable twice");
    vp_assert(x.count_ >= 1 && x.count_ <= MAX, "no node is empty or too full");
    auto const leaf = depth + 1 == t_.m_.height_;
    vp_assert(x.kind_ == (leaf ? Tree::kind::kLeaf : Tree::kind::kBranch), "leaves are at the bottom");
    auto r = std::size_t{0};
    for (auto i = 0U; i != x.count_; ++i) {
      vp_assert(covers(outer, x.rects_[i]), "every inner box covers those below it");
      if (leaf) {
        got.push_back({x.rects_[i].min_, x.rects_[i].max_, x.data_[i]});
        ++r;
      } else {
        r += below(to_idx(x.children_[i]), depth + 1, x.rects_[i], seen, got);
      }
    }
    return r;
  }
  void check() {
    auto const& m = t_.m_;
    std::vector<int> seen(t_.nodes_.size());
    std::vector<item> got;
    vp_assert(m.count_ == all_.size(), "the number of entries");
    vp_assert((m.root_ == Tree::node_idx_t::invalid()) == all_.empty(), "a root unless empty");
    if (!all_.empty()) {
      below(to_idx(m.root_), 0, m.rect_, seen, got);
    }
    auto f = m.free_list_;
    while (f != Tree::node_idx_t::invalid()) {
      vp_assert(to_idx(f) < seen.size() && seen[to_idx(f)]++ == 0, "free nodes are free");
      auto const& x = t_.get_node(f);
      f = x.kind_ == Tree::kind::kEndFreeList ? Tree::node_idx_t::invalid() : typename Tree::node_idx_t{x.count_};
    }
    vp_assert(std::all_of(begin(seen), end(seen), [](int const s) { return s == 1; }), "no node is lost");
    auto want = all_;
    std::sort(begin(got), end(got));
    std::sort(begin(want), end(want));
    vp_assert(got == want, "exactly the stored entries");
  }
  void run() {
    auto const phases = vp::any_in<unsigned>("phases", 1, 4);
    for (auto p = 0U; p != phases; ++p) {
      auto const n = vp::any_in<unsigned>("steps", 0, MAX > 20 ? 260 : 60);
      auto const bias = vp::any_in<unsigned>("bias", 0, 8);  // from mostly deletions to mostly insertions
      auto const often = vp::any_in<unsigned>("check", 0, 3) == 0;
      for (auto i = 0U; i != n; ++i) {
        auto const op = vp::any_in<unsigned>("op", 0, 11);
        if (op == 0) {
          search();
        } else if (op <= bias + 2) {
          if (t_.m_.height_ > 18) {  // uneven splits; a failed deletion takes exponential time in the height
            continue;
          }
          insert();
        } else {
          erase();
        }
        if (often) {
          check();
        }
      }
      check();
      search();
      search();
    }
    if (vp::any<bool>("drain")) {
      while (!all_.empty()) {
        auto const e = all_[vp::any_in<std::size_t>("which", 0, all_.size() - 1)];
        t_.delete_element(e.lo_, e.hi_, e.d_);
        all_.erase(std::find(begin(all_), end(all_), e));
        check();
      }
      insert();
      check();
      search();
    }
  }
  Tree& t_;
  std::vector<item> all_;
  std::uint64_t next_{1};
  unsigned range_, shape_;
};
template <typename N, unsigned D, unsigned MAX>
void history() {
  using tree = raw::rtree<std::uint64_t, D, N, MAX>;
  tree t;
  model<tree, N, D, MAX>{t}.run();
}
}  // namespace
NATIVE(history_float_2_3) { history<float, 2, 3>(); }
NATIVE(history_float_2_4) { history<float, 2, 4>(); }
NATIVE(history_double_3_5) { history<double, 3, 5>(); }
NATIVE(history_int_1_4) { history<int, 1, 4>(); }
NATIVE(history_i64_2_10) { history<std::int64_t, 2, 10>(); }
NATIVE(history_float_2_64) { history<float, 2, 64>(); }
NATIVE(history_mapped) {
  using tree = mm_rtree<std::uint64_t, 2, float, 4>;
  char name[] = "/dev/shm/vp22-XXXXXX";
  auto fd = mkstemp(name);
  std::string path = name;
  if (fd == -1) {
    char other[] = "/tmp/vp22-XXXXXX";
    fd = mkstemp(other);
    path = other;
  }
  vp_assume(fd != -1);
  close(fd);
  cista::mmap file{path.c_str()};
  unlink(path.c_str());
  tree t{{}, mmap_vec_map<tree::node_idx_t, tree::node>{std::move(file)}};
  model<tree, float, 2, 4>{t}.run();
}
#endif
