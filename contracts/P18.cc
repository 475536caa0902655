// P18: paged storage.  Abstract view: a set of live pages and, per power of two, a list of free pages
// threaded through the data; all of them lie in the data and are disjoint.  Each operation is proved for
// arbitrary data, free list heads and pages: a page handed out was free or is new, and nothing else
// changes (at an arbitrary element, at an arbitrary free list).
#include "vp.h"
#include "arb.h"
#include "vec_contracts.h"

#include "cista/containers/paged.h"
#include "cista/containers/paged_vecvec.h"
#include "cista/containers/vector.h"

using namespace cista;

namespace {
using rv = raw::vector<std::uint32_t>;
using ov = offset::vector<std::uint32_t>;
using rc = raw::vector<char>;
using rw = raw::vector<std::uint64_t>;
using P_ru32 = paged<rv>;
using P_ou32 = paged<ov>;
using P_rchr = paged<rc>;
using P_ru64 = paged<rw>;
using page_t = page<std::uint32_t, std::uint16_t>;
using pages = raw::vector<page_t>;
}  // namespace
VEC_CONTRACTS(ru32, raw::vector<std::uint32_t>)
VEC_CONTRACTS(ou32, offset::vector<std::uint32_t>)
VEC_CONTRACTS(rchr, raw::vector<char>)
VEC_CONTRACTS(ru64, raw::vector<std::uint64_t>)
using vpage_ = cista::page<std::uint32_t, std::uint16_t>;
VEC_CONTRACTS(rpage, cista::raw::vector<vpage_>)

// contract of paged::free_list_index (proved in free_list_index_*), instead of its loop over the bits
#ifndef VP_NATIVE
template <unsigned MIN>
std::uint64_t list_of(std::uint32_t cap) {
  auto const r = vp::any<std::uint32_t>("free list");
  vp_assert(cap != 0 && (cap & (cap - 1)) == 0 && (cap >> MIN) != 0, "precondition: a power of two");
  vp_assume(r < 32 - MIN && (std::uint32_t{1} << (r + MIN)) == cap);
  return r;
}
extern "C" {
std::uint64_t vpc_list_1(std::uint32_t cap) { return list_of<1>(cap); }
std::uint64_t vpc_list_3(std::uint32_t cap) { return list_of<3>(cap); }
}
#endif
namespace {
constexpr auto NONE = std::numeric_limits<std::uint32_t>::max();
constexpr std::uint32_t MAXN = 1U << 28;

template <typename P>
constexpr unsigned MINLOG = sizeof(typename P::value_type) == 1 ? 3 : 1;

template <typename P>
struct state {
  using T = typename P::value_type;
  static constexpr unsigned MIN = MINLOG<P>;
  static constexpr unsigned LINK = sizeof(T) >= 4 ? 1 : 4 / sizeof(T);  // elements that hold a link
  state() {
    new (&r_.v) P{};
    n_ = vp::any_size<std::uint32_t>("n", 0, MAXN, 100);
    auto const spare = vp::any_size<std::uint32_t>("spare", 0, MAXN, 20);
    auto const cap = n_ + spare;
    vp_assume(cap != 0);
    r_.v.data_.el_ = static_cast<T*>(vp_any_mem(static_cast<std::uint64_t>(cap) * sizeof(T), sizeof(T), 16, "data"));
    r_.v.data_.used_size_ = n_;
    r_.v.data_.allocated_size_ = cap;
    r_.v.data_.self_allocated_ = true;
    for (auto& f : r_.v.free_list_) {
      f.next_ = vp::any<std::uint32_t>("head");
    }
    j_ = vp::any_in<unsigned>("j", 0, static_cast<unsigned>(P::free_list_size) - 1U);
    headj_ = r_.v.free_list_[j_].next_;
    q_ = vp::any_size<std::uint32_t>("q", 0, MAXN, 100);
    vp_index(q_);
    vp_assume(q_ < n_);
    old_ = (*this)[q_];
  }
  // natively there are no stubs that choose a suitable free page: no free pages
  void settle() {
#ifdef VP_NATIVE
    for (auto& f : r_.v.free_list_) {
      f.next_ = NONE;
    }
    headj_ = NONE;
#endif
  }
  T operator[](std::uint32_t i) const { return static_cast<T const*>(r_.v.data_.el_)[i]; }
  std::uint32_t head(unsigned log) const { return r_.v.free_list_[log - MIN].next_; }
  std::uint32_t link(std::uint32_t at) const {
    std::uint32_t x;
    std::memcpy(&x, static_cast<T const*>(r_.v.data_.el_) + at, 4);
    return x;
  }
  // a page of an arbitrary size class inside the data
  page_t any_page(unsigned& log) {
    log = vp::any_in<unsigned>("log", MIN, 15);
    auto const cap = std::uint32_t{1} << log;
    auto const start = vp::any_size<std::uint32_t>("start", 0, MAXN, 100);
    vp_assume(cap <= n_ && start <= n_ - cap);
    return {static_cast<std::uint16_t>(vp::any_in<std::uint32_t>("used", 0, cap)), static_cast<std::uint16_t>(cap), start};
  }
  // the class of pages for n elements
  static unsigned class_of(std::uint32_t n) {
    auto const log = vp::any_in<unsigned>("class", MIN, 15);
    vp_assume((std::uint32_t{1} << log) >= n && (log == MIN || (std::uint32_t{1} << (log - 1)) < n));
    return log;
  }
  void free_head(unsigned log, bool reuse) {
    head_ = head(log);
    if (reuse) {
      auto const cap = std::uint32_t{1} << log;
      vp_assume(cap <= n_ && head_ <= n_ - cap);
      vp_index(head_);
      next_ = link(head_);
    } else {
      vp_assume(head_ == NONE);
    }
  }
  void handed_out(page_t const& p, std::uint32_t n, unsigned log, bool reuse) {
    vp_assert(p.size_ == n && p.capacity_ == std::uint32_t{1} << log, "room for the requested size");
    vp_assert(p.start_ == (reuse ? head_ : n_), "a free page, or a new one behind the data");
    vp_assert(r_.v.data_.size() == (reuse ? n_ : n_ + (std::uint32_t{1} << log)), "the data grows by a new page only");
    vp_assert(head(log) == (reuse ? next_ : NONE), "a page in use is in no free list");
  }
  void lists_unchanged(unsigned but1, unsigned but2) {
    vp_assert(j_ + MIN == but1 || j_ + MIN == but2 || r_.v.free_list_[j_].next_ == headj_, "the other free lists stay");
  }
  void same() { vp_assert((*this)[q_] == old_, "the content of all pages stays"); }
  bool in(std::uint32_t start, std::uint32_t n) const { return q_ - start < n; }
  vp::raw<P> r_;
  std::uint32_t n_, q_, headj_, head_, next_;
  unsigned j_;
  T old_;
};

template <typename P>
void list_index() {
  auto const log = vp::any_in<std::uint32_t>("log", MINLOG<P>, 31);
  vp_assert(P::free_list_index(std::uint32_t{1} << log) == log - MINLOG<P>, "one free list per power of two");
  vp_assert(P::free_list_size == 16 - MINLOG<P>, "a free list for every page size");
}
#ifndef VP_NATIVE
// The contracts of create_page and resize_page, used inside the vector of vectors (proved in create_*
// and resize_*): the page returned is new or was free, so it is apart from every live page.
page_t live_[2];
template <typename P>
page_t vpc_new_page(P* m, std::uint32_t n) {
  vp_assert(n <= (1U << 15), "precondition: fits into a page");
  auto const cap = vp::any_in<std::uint32_t>("page capacity", 2, 1U << 15);
  vp_assume(cap >= n && (cap & (cap - 1)) == 0);
  auto start = static_cast<std::uint32_t>(m->data_.size());
  if (vp_fork(vp::any<bool>("new page"))) {
    vp::vec_reserve(&m->data_, start + cap);
    m->data_.used_size_ = start + cap;
  } else {
    start = vp::any<std::uint32_t>("free page");
    vp_assume(cap <= m->data_.used_size_ && start <= m->data_.used_size_ - cap);
    for (auto const& l : live_) {
      vp_assume((start + cap <= l.start_) | (l.start_ + l.capacity_ <= start));
    }
  }
  return {static_cast<std::uint16_t>(n), static_cast<std::uint16_t>(cap), start};
}
template <typename P>
page_t vpc_new_size(P* m, page_t const& p, std::uint16_t n) {
  if (n <= p.capacity_) {
    return {n, p.capacity_, p.start_};
  }
  auto const r = vpc_new_page(m, n);
  auto* const d = static_cast<typename P::value_type*>(m->data_.el_);
  std::memcpy(d + r.start_, d + p.start_, p.size_ * sizeof(typename P::value_type));
  auto const link = vp::any<std::uint32_t>("link");
  std::memcpy(d + p.start_, &link, 4);
  return r;
}
}  // namespace
extern "C" {
page_t vpc_create_ru32(P_ru32* m, std::uint64_t n) { return vpc_new_page(m, static_cast<std::uint32_t>(n)); }
page_t vpc_create_rchr(P_rchr* m, std::uint64_t n) { return vpc_new_page(m, static_cast<std::uint32_t>(n)); }
page_t vpc_create_ou32(P_ou32* m, std::uint64_t n) { return vpc_new_page(m, static_cast<std::uint32_t>(n)); }
page_t vpc_create_ru64(P_ru64* m, std::uint64_t n) { return vpc_new_page(m, static_cast<std::uint32_t>(n)); }
page_t vpc_resize_ru32(P_ru32* m, page_t const& p, std::uint16_t n) { return vpc_new_size(m, p, n); }
page_t vpc_resize_rchr(P_rchr* m, page_t const& p, std::uint16_t n) { return vpc_new_size(m, p, n); }
}
namespace {
#else
page_t live_[2];
#endif
template <typename P, bool REUSE>
void create() {
  state<P> s;
  auto const n = vp::any_in<std::uint32_t>("size", 0, 1U << 15);
  auto const log = state<P>::class_of(n);
  s.free_head(log, REUSE);
  auto const p = s.r_.v.create_page(n);
  s.handed_out(p, n, log, REUSE);
  s.same();
  s.lists_unchanged(log, log);
}
template <typename P>
void reject() {
  state<P> s;
  auto const n = vp::any_in<std::uint64_t>("size", (1U << 15) + 1, std::uint64_t{1} << 40);
  auto thrown = false;
  try {
    s.r_.v.create_page(n);
  } catch (...) {
    thrown = true;
  }
  vp_assert(thrown, "a page that is too large is rejected");
  vp_assert(s.r_.v.data_.size() == s.n_, "nothing changed");
  s.same();
  s.lists_unchanged(99, 99);
}
template <typename P>
void free_page() {
  state<P> s;
  unsigned log;
  auto const p = s.any_page(log);
  auto const old = s.head(log);
  vp_index(p.start_);
  s.r_.v.free_page(p);
  vp_assert(s.head(log) == p.start_ && s.link(p.start_) == old, "the first of the free pages");
  vp_assert(s.r_.v.data_.size() == s.n_, "the data stays");
  vp_assert(s.in(p.start_, state<P>::LINK) || s[s.q_] == s.old_, "the content of all other pages stays");
  s.lists_unchanged(log, log);
}
// a page that was freed is the next one handed out, the free list is as before
template <typename P>
void free_create() {
  state<P> s;
  unsigned log;
  auto const p = s.any_page(log);
  auto const old = s.head(log);
  vp_index(p.start_);
  s.r_.v.free_page(p);
  auto const n = vp::any_in<std::uint32_t>("size", 0, 1U << 15);
  vp_assume(state<P>::class_of(n) == log);
  auto const q = s.r_.v.create_page(n);
  vp_assert(q.start_ == p.start_ && q.capacity_ == p.capacity_ && q.size_ == n, "the freed page");
  vp_assert(s.head(log) == old && s.r_.v.data_.size() == s.n_, "the free list as before");
  s.lists_unchanged(99, 99);
}
template <typename P>
void free_invalid() {
  state<P> s;
  s.r_.v.free_page(page_t{});
  vp_assert(s.r_.v.data_.size() == s.n_, "nothing changed");
  s.same();
  s.lists_unchanged(99, 99);
}
template <typename P>
void resize_within() {
  state<P> s;
  unsigned log;
  auto const p = s.any_page(log);
  auto const n = vp::any_in<std::uint32_t>("size", 0, p.capacity_);
  auto const r = s.r_.v.resize_page(p, static_cast<std::uint16_t>(n));
  vp_assert(r.size_ == n && r.capacity_ == p.capacity_ && r.start_ == p.start_, "the same page");
  vp_assert(s.r_.v.data_.size() == s.n_, "the data stays");
  s.same();
  s.lists_unchanged(99, 99);
}
template <typename P>
void resize_grow() {
  state<P> s;
  s.settle();
  unsigned log;
  auto const p = s.any_page(log);
  live_[0] = live_[1] = p;
  auto const n = vp::any_in<std::uint32_t>("size", 0, 1U << 15);
  vp_assume(n > p.capacity_);
  auto const old = s.head(log);
  auto const k = vp::any_in<std::uint32_t>("k", 0, 1U << 15);
  vp_assume(k < p.size_);
  vp_index(p.start_ + k);
  vp_index(p.start_);
  auto const x = s[p.start_ + k];
  auto const r = s.r_.v.resize_page(p, static_cast<std::uint16_t>(n));
  vp_assert(r.size_ == n && r.capacity_ >= n, "room for the requested size");
  vp_assert(s[r.start_ + k] == x, "the page keeps its content");
  vp_assert(s.head(log) == p.start_ && s.link(p.start_) == old, "the old page is free");
  vp_assert(s.in(r.start_, p.size_) || s.in(p.start_, state<P>::LINK) || s[s.q_] == s.old_, "the content of all other pages stays");
#ifdef VP_NATIVE
  auto const nlog = state<P>::class_of(n);
#else
  auto const nlog = log;  // (the contract of create_page says which list it takes from)
#endif
  s.lists_unchanged(log, nlog);
}
template <typename P>
void clear() {
  state<P> s;
  s.r_.v.clear();
  vp_assert(s.r_.v.data_.size() == 0 && s.r_.v.free_list_[s.j_].empty(), "no pages, live or free");
}
template <typename P>
void view() {
  state<P> s;
  unsigned log;
  auto const p = s.any_page(log);
  P const& c = s.r_.v;
  vp_assert(s.r_.v.data(p) == static_cast<typename P::value_type*>(c.data_.el_) + p.start_ && c.data(p) == s.r_.v.data(p) && s.r_.v.begin(p) == c.begin(p) &&
                c.begin(p) == c.data(p),
            "a page is a range of the data");
  vp_assert(p.valid() && p.size() == p.size_, "a page");
}
// ------------------------------------------------------------------------- vectors of paged vectors
template <typename P>
using pvv = paged_vecvec<pages, P, std::uint32_t>;

template <typename T>
struct span {
  T const* begin() const { return p_; }
  T const* end() const { return p_ + n_; }
  std::uint64_t size() const { return n_; }
  T const* p_;
  std::uint64_t n_;
};

// an arbitrary bucket b_ (page p_), an arbitrary other bucket o_ (page op_) and an element of it
template <typename P>
struct buckets {
  using T = typename P::value_type;
  buckets() {
    new (&r_.v.idx_) pages{};
    n_ = vp::any_size<std::uint32_t>("buckets", 1, MAXN, 10);
    auto const cap = n_ + vp::any_size<std::uint32_t>("spare buckets", 0, MAXN, 5);
    auto* const m = static_cast<page_t*>(vp_any_mem(static_cast<std::uint64_t>(cap) * sizeof(page_t), 4, 16, "pages"));
    r_.v.idx_.el_ = m;
    r_.v.idx_.used_size_ = n_;
    r_.v.idx_.allocated_size_ = cap;
    r_.v.idx_.self_allocated_ = true;
    s_.settle();
    std::memcpy(&r_.v.paged_, &s_.r_.v, sizeof(P));
    static_assert(std::is_same_v<typename P::iterator, T*>);
    b_ = vp::any_size<std::uint32_t>("b", 0, MAXN, 10);
    o_ = vp::any_size<std::uint32_t>("o", 0, MAXN, 10);
    vp_assume(b_ < n_ && o_ < n_ && b_ != o_);
    vp_index(2 * b_);
    vp_index(2 * b_ + 1);
    vp_index(2 * o_);
    vp_index(2 * o_ + 1);
    p_ = s_.any_page(log_);
    op_ = s_.any_page(olog_);
    m[b_] = p_;
    m[o_] = op_;
    apart(p_.start_, p_.capacity_, op_);
    live_[0] = p_;
    live_[1] = op_;
    k_ = vp::any_in<std::uint32_t>("k", 0, 1U << 15);
    ok_ = vp::any_in<std::uint32_t>("ok", 0, 1U << 15);
    vp_index(p_.start_ + k_);
    vp_index(op_.start_ + ok_);
    vp_index(p_.start_);
    has_ = vp_fork(k_ < p_.size_);
    vp_assume(ok_ < op_.size_);
    x_ = has_ ? s_[p_.start_ + k_] : T{};
    ox_ = s_[op_.start_ + ok_];
  }
  void apart(std::uint32_t start, std::uint32_t cap, page_t const& p) {
    vp_assume(start + std::uint64_t{cap} <= p.start_ || p.start_ + std::uint64_t{p.capacity_} <= start);
  }
  T at(std::uint32_t b, std::uint32_t k) {
    auto const& p = static_cast<page_t const*>(r_.v.idx_.el_)[b];
    return static_cast<T const*>(r_.v.paged_.data_.el_)[p.start_ + k];
  }
  page_t const& page(std::uint32_t b) { return static_cast<page_t const*>(r_.v.idx_.el_)[b]; }
  void other_same() {
    auto const& p = page(o_);
    vp_assert(p.size_ == op_.size_ && p.start_ == op_.start_ && p.capacity_ == op_.capacity_ && at(o_, ok_) == ox_, "the other buckets stay");
  }
  state<P> s_;
  vp::raw<pvv<P>> r_;
  std::uint32_t n_, b_, o_, k_, ok_;
  page_t p_, op_;
  unsigned log_, olog_;
  bool has_;
  T x_, ox_;
};
enum how { ROOM, GROW };
template <typename P, how H>
void push() {
  buckets<P> s;
  if (H == ROOM) {
    vp_assume(s.p_.size_ < s.p_.capacity_);
  } else {
    vp_assume(s.p_.size_ == s.p_.capacity_ && s.log_ < 15);
  }
  auto const y = vp::any<typename P::value_type>("x");
  s.r_.v[s.b_].push_back(y);
  auto const& p = s.page(s.b_);
  vp_assert(p.size_ == s.p_.size_ + 1 && s.r_.v[s.b_].size() == p.size_, "one element more");
  vp_assert(s.at(s.b_, s.p_.size_) == y, "the new element is the last one");
  if (s.has_) {
    vp_assert(s.at(s.b_, s.k_) == s.x_, "the earlier elements stay");
  }
  vp_assert(p.capacity_ >= p.size_ && p.start_ + std::uint64_t{p.capacity_} <= s.r_.v.paged_.data_.size(), "the page is inside the data");
  vp_assert(p.start_ + std::uint64_t{p.capacity_} <= s.op_.start_ || s.op_.start_ + std::uint64_t{s.op_.capacity_} <= p.start_, "pages are disjoint");
  s.other_same();
}
template <typename P>
void append() {
  buckets<P> s;
  auto const n = vp::any_in<std::uint32_t>("size", 1, 1U << 15);
  auto* const src = vp::any_array<typename P::value_type>(n, "source");
  auto const i = vp::any_in<std::uint32_t>("i", 0, 1U << 15);
  vp_assume(i < n);
  vp_index(i);
  s.r_.v.emplace_back(span<typename P::value_type>{src, n});
  vp_assert(s.r_.v.size() == s.n_ + 1, "one bucket more");
  auto const& p = s.page(s.n_);
  vp_assert(p.size_ == n && s.at(s.n_, i) == src[i], "the new bucket holds the elements");
  vp_assert(p.capacity_ >= p.size_ && p.start_ + std::uint64_t{p.capacity_} <= s.r_.v.paged_.data_.size(), "the page is inside the data");
  vp_assert(p.start_ + std::uint64_t{p.capacity_} <= s.op_.start_ || s.op_.start_ + std::uint64_t{s.op_.capacity_} <= p.start_, "pages are disjoint");
  if (s.has_) {
    vp_assert(s.at(s.b_, s.k_) == s.x_, "the earlier buckets stay");
  }
  s.other_same();
}
template <typename P>
void access() {
  buckets<P> s;
  auto const& c = s.r_.v;
  auto const b = s.r_.v[s.b_];
  auto const cb = c[s.b_];
  vp_assert(b.size() == s.p_.size_ && cb.size() == s.p_.size_ && b.empty() == (s.p_.size_ == 0) && cb.empty() == b.empty(), "the size");
  vp_assert(b.end() - b.begin() == s.p_.size_ && cb.end() - cb.begin() == s.p_.size_, "the range");
  if (s.has_) {
    vp_assert(b[s.k_] == s.x_ && cb[s.k_] == s.x_ && b.at(s.k_) == s.x_ && cb.at(s.k_) == s.x_ && &b.begin()[s.k_] == &cb[s.k_], "the elements");
  } else {
    auto thrown = 0;
    try {
      b.at(s.k_);
    } catch (...) {
      ++thrown;
    }
    try {
      cb.at(s.k_);
    } catch (...) {
      ++thrown;
    }
    vp_assert(thrown == 2, "at rejects an index behind the bucket");
  }
  vp_assert(c.size() == s.n_ && !c.empty() && c.at(s.b_).size() == s.p_.size_ && s.r_.v.at(s.b_).size() == s.p_.size_, "buckets");
  vp_assert(c.end() - c.begin() == static_cast<std::ptrdiff_t>(s.n_), "the range of buckets");
  auto const far = vp::any<std::uint32_t>("far");
  vp_assume(far >= s.n_);
  auto thrown = 0;
  try {
    c.at(far);
  } catch (...) {
    ++thrown;
  }
  try {
    s.r_.v.at(far);
  } catch (...) {
    ++thrown;
  }
  vp_assert(thrown == 2, "at rejects an index behind the buckets");
}
}  // namespace
#define PAGED(T)                                                   \
  OBLIGATION(create_new_##T) { create<P_##T, false>(); }           \
  OBLIGATION(create_reuse_##T) { create<P_##T, true>(); }          \
  OBLIGATION(reject_##T) { reject<P_##T>(); }                      \
  OBLIGATION(free_##T) { free_page<P_##T>(); }                     \
  OBLIGATION(free_create_##T) { free_create<P_##T>(); }            \
  OBLIGATION(free_invalid_##T) { free_invalid<P_##T>(); }          \
  OBLIGATION(resize_within_##T) { resize_within<P_##T>(); }        \
  OBLIGATION(resize_grow_##T) { resize_grow<P_##T>(); }            \
  OBLIGATION(clear_##T) { clear<P_##T>(); }                        \
  OBLIGATION(view_##T) { view<P_##T>(); }                          \
  OBLIGATION(list_index_##T) { list_index<P_##T>(); }
PAGED(ru32)
PAGED(ou32)
PAGED(rchr)
PAGED(ru64)
#define PVV(T)                                                     \
  OBLIGATION(push_room_##T) { push<P_##T, ROOM>(); }               \
  OBLIGATION(push_grow_##T) { push<P_##T, GROW>(); }               \
  OBLIGATION(append_##T) { append<P_##T>(); }                      \
  OBLIGATION(access_##T) { access<P_##T>(); }
PVV(ru32)
PVV(rchr)
