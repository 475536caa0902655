// P09: hash maps and sets behave as finite maps and sets.
// Proved for all inputs: the group operations over any 8 control bytes, the control byte writes and the
// probe sequence of any capacity.  Proved for every table of capacity 1 and 3 (any keys, any hash
// function, any pattern of full, empty and deleted slots satisfying the invariant): lookup, insertion,
// erasure, iteration as on the mathematical set (complete case split over the slots).  Larger tables: native model comparison (bounded).
#include "vp.h"

#include "cista/containers/hash_map.h"
#include "cista/containers/hash_set.h"

using namespace cista;

namespace {
// an arbitrary hash function
struct any_hash {
  std::uint64_t operator()(std::uint32_t x) const { return vp_uf("hash", x, 0); }
  template <typename T>
  static any_hash create() {
    return {};
  }
};
template <template <typename> typename P>
using set_of = hash_storage<std::uint32_t, P, identity, identity, any_hash, equal_to<std::uint32_t>>;
using H = raw::hash_set<std::uint32_t, any_hash>;
using G = H::group;
using C = H::ctrl_t;

// --------------------------------------------------------------------------------------- groups
std::uint8_t byte(std::uint64_t g, unsigned i) { return static_cast<std::uint8_t>(g >> (8 * i)); }
std::uint64_t any_group() {
  // control bytes: full 0..127, EMPTY, DELETED, END
  auto const g = vp::any<std::uint64_t>("group");
  for (unsigned i = 0; i != 8; ++i) {
    auto const b = byte(g, i);
    vp_assume(b < 128 || b == 0x80 || b == 0xFE || b == 0xFF);
  }
  return g;
}
OBLIGATION(group_match_empty) {
  auto const g = any_group();
  C b[8];
  std::memcpy(b, &g, 8);
  auto const m = G{b}.match_empty().mask_;
  vp_assert((m & ~G::MSBS) == 0, "one bit per byte");
  for (unsigned i = 0; i != 8; ++i) {
    vp_assert((byte(m, i) == 0x80) == (byte(g, i) == 0x80), "exactly the empty bytes");
  }
}
OBLIGATION(group_match_free) {
  auto const g = any_group();
  C b[8];
  std::memcpy(b, &g, 8);
  auto const m = G{b}.match_empty_or_deleted().mask_;
  vp_assert((m & ~G::MSBS) == 0, "one bit per byte");
  for (unsigned i = 0; i != 8; ++i) {
    vp_assert((byte(m, i) == 0x80) == (byte(g, i) == 0x80 || byte(g, i) == 0xFE), "exactly the empty and deleted bytes");
  }
}
OBLIGATION(group_match) {
  auto const g = any_group();
  auto const h = vp::any_in<std::uint8_t>("h2", 0, 127);
  C b[8];
  std::memcpy(b, &g, 8);
  auto const m = G{b}.match(h).mask_;
  vp_assert((m & ~G::MSBS) == 0, "one bit per byte");
  for (unsigned i = 0; i != 8; ++i) {
    vp_assert(byte(g, i) != h || byte(m, i) == 0x80, "every byte with this hash is found");
    vp_assert(byte(m, i) == 0 || byte(g, i) < 128, "only full slots are looked at");
  }
}
OBLIGATION(group_leading) {
  auto const g = any_group();
  C b[8];
  std::memcpy(b, &g, 8);
  auto const n = G{b}.count_leading_empty_or_deleted();
  vp_assert(n <= 8, "at most the group");
  for (unsigned i = 0; i != 8; ++i) {
    auto const is_free = byte(g, i) == 0x80 || byte(g, i) == 0xFE;
    vp_assert(i >= n || is_free, "all skipped bytes are free");
    vp_assert(i != n || !is_free, "stops at the first byte that is not free");
  }
}
OBLIGATION(mask_iteration) {
  auto const m = vp::any<std::uint64_t>("mask") & G::MSBS;
  H::bit_mask x{m};
  vp_assert(static_cast<bool>(x) == (m != 0), "empty or not");
  vp_assume(m != 0);
  auto const i = *x;
  vp_assert(i < 8 && byte(m, static_cast<unsigned>(i)) == 0x80, "the lowest match");
  for (unsigned k = 0; k != 8; ++k) {
    vp_assert(k >= i || byte(m, k) == 0, "the lowest match");
  }
  ++x;
  vp_assert(x.mask_ == (m & ~(std::uint64_t{0x80} << (8 * i))), "the rest stays");
}
OBLIGATION(control_bytes) {
  for (int i = 0; i != 128; ++i) {
    auto const c = static_cast<C>(i);
    vp_assert(H::is_full(c) && !H::is_empty(c) && !H::is_deleted(c) && !H::is_empty_or_deleted(c), "full");
  }
  vp_assert(H::is_empty(H::EMPTY) && H::is_empty_or_deleted(H::EMPTY) && !H::is_full(H::EMPTY) && !H::is_deleted(H::EMPTY), "empty");
  vp_assert(H::is_deleted(H::DELETED) && H::is_empty_or_deleted(H::DELETED) && !H::is_full(H::DELETED) && !H::is_empty(H::DELETED), "deleted");
  vp_assert(!H::is_full(H::END) && !H::is_empty_or_deleted(H::END) && !H::is_empty(H::END) && !H::is_deleted(H::END), "end");
  auto const h = vp::any<std::uint64_t>("hash");
  vp_assert(H::h2(h) < 128, "a full slot");
}
// --------------------------------------------------------------------------------------- capacity
OBLIGATION(capacity_growth) {
  auto const n = vp::any_in<std::uint64_t>("n", 0, std::uint64_t{1} << 60);
  auto const c = H::normalize_capacity(n);
  vp_assert((c & (c + 1)) == 0 && c >= n && c >= 1, "the next 2^k-1");
  vp_assert(n == 0 || (c >> 1) < n, "the smallest one");
  auto const log = vp::any_in<unsigned>("log", 1, 60);
  auto const cap = (std::uint64_t{1} << log) - 1;
  auto const g = H::capacity_to_growth(cap);
  vp_assert(g <= cap && g >= 1, "no more entries than slots");
  vp_assert(cap < 7 || g < cap, "at least one slot stays empty");
}
OBLIGATION(probe_offsets) {
  auto const log = vp::any_in<unsigned>("log", 0, 60);
  auto const cap = (std::uint64_t{1} << log) - 1;
  H::probe_seq s{vp::any<std::uint64_t>("hash"), cap};
  s.index_ = vp::any<std::uint64_t>("index");
  s.offset_ = vp::any<std::uint64_t>("offset") & cap;
  auto const o = s.offset_, i = s.index_;
  auto const k = vp::any<std::uint64_t>("k");
  vp_assert(s.offset(k) <= cap && ((s.offset(k) - o - k) & cap) == 0, "offset modulo the number of slots");
  s.next();
  vp_assert(s.index_ == i + 8 && s.offset_ <= cap && ((s.offset_ - o - i - 8) & cap) == 0, "triangular steps");
}
// setting one control byte keeps the copy of the first bytes behind the end
OBLIGATION(set_ctrl) {
  auto const log = vp::any_in<unsigned>("log", 1, 40);
#ifdef VP_NATIVE
  vp_assume(log < 9);
#endif
  auto const cap = (std::uint64_t{1} << log) - 1;
  auto* const m = static_cast<std::uint8_t*>(vp_any_mem(cap + 9, 1, 16, "control bytes"));
  vp::raw<H> r;
  new (&r.v) H{};
  r.v.capacity_ = cap;
  r.v.ctrl_ = reinterpret_cast<C*>(m);
  auto const i = vp::any<std::uint64_t>("i"), k = vp::any<std::uint64_t>("k");
  vp_assume(i < cap && k < cap + 9);
  auto const old = m[k];
  auto const c = vp::any<std::uint8_t>("c");
  r.v.set_ctrl(i, c);
  auto const copy = cap + 1 + i;
  auto const copied = i < 7 || cap < 7;  // the first seven bytes have a copy
  auto const at = k == i || (copied && k == copy);
  if (vp_fork(cap >= 7)) {
    vp_assert(m[k] == (k == i || (i < 8 && k == copy) ? c : old) || (i >= 8 && k == i), "exactly this byte and its copy");
  } else {
    vp_assert(m[k] == (at ? c : old), "exactly this byte and its copy");
  }
}

// ------------------------------------------------------------------------------- small tables
template <unsigned CAP>
struct table {
  static constexpr unsigned BYTES = CAP + 9;
  explicit table() {
    mem_ = static_cast<std::uint32_t*>(std::malloc(4 * CAP + BYTES));
    auto* const ctrl = reinterpret_cast<std::uint8_t*>(mem_ + CAP);
    unsigned full = 0, del = 0;
    for (unsigned i = 0; i != BYTES; ++i) {
      ctrl[i] = 0x80;
    }
    ctrl[CAP] = 0xFF;
    for (unsigned i = 0; i != CAP; ++i) {
      auto const s = vp::any_in<std::uint8_t>("slot", 0, 2);
      key_[i] = vp::any<std::uint32_t>("key");
#ifdef VP_NATIVE
      key_[i] %= 16;
      for (unsigned j = 0; j < i; ++j) {
        vp_assume(!is_[j] || s != 1 || key_[j] != key_[i]);
      }
#endif
      is_[i] = s == 1;
      mem_[i] = key_[i];
      auto const c = s == 1 ? static_cast<std::uint8_t>(vp_uf("hash", key_[i], 0) & 0x7F) : s == 2 ? std::uint8_t{0xFE} : std::uint8_t{0x80};
      ctrl[i] = c;
      ctrl[CAP + 1 + i] = c;
      full += s == 1;
      del += s == 2;
    }
#ifndef VP_NATIVE
    for (unsigned i = 0; i != CAP; ++i) {
      for (unsigned j = 0; j != i; ++j) {
        vp_assume(!is_[i] || !is_[j] || key_[i] != key_[j]);
      }
    }
#endif
    vp_assume(full + del <= H::capacity_to_growth(CAP));
    new (&r_.v) H{};
    r_.v.entries_ = mem_;
    r_.v.ctrl_ = reinterpret_cast<C*>(ctrl);
    r_.v.capacity_ = CAP;
    r_.v.size_ = full;
    r_.v.growth_left_ = H::capacity_to_growth(CAP) - full - del;
    r_.v.self_allocated_ = true;
    size_ = full;
    growth_ = H::capacity_to_growth(CAP) - full - del;
    q_ = vp::any<std::uint32_t>("q");
    p_ = vp::any<std::uint32_t>("p");
#ifdef VP_NATIVE
    q_ %= 16;
    p_ %= 16;
#endif
  }
  H& operator*() { return r_.v; }
  H* operator->() { return &r_.v; }
  bool had(std::uint32_t k) const {
    auto r = false;
    for (unsigned i = 0; i != CAP; ++i) {
      r |= is_[i] & (key_[i] == k);
    }
    return r;
  }
  // the abstract set of a table of capacity N
  template <unsigned N>
  bool has(std::uint32_t k) const {
    auto const* c = reinterpret_cast<std::uint8_t const*>(r_.v.ctrl_);
    auto r = false;
    for (unsigned i = 0; i != N; ++i) {
      r |= (c[i] < 128) & (r_.v.entries_[i] == k);
    }
    return r;
  }
  // the representation invariant of a table of capacity N
  template <unsigned N>
  void ok(std::uint64_t size) const {
    auto const* c = reinterpret_cast<std::uint8_t const*>(r_.v.ctrl_);
    vp_assert(r_.v.capacity_ == N && c[N] == 0xFF, "capacity and end");
    std::uint64_t full = 0, del = 0;
    for (unsigned i = 0; i != N; ++i) {
      vp_assert(i > 6 || c[N + 1 + i] == c[i], "copies of the first control bytes");
      vp_assert((c[i] < 128) | (c[i] == 0x80) | (c[i] == 0xFE), "full, empty or deleted");
      vp_assert(!(c[i] < 128) | (c[i] == (vp_uf("hash", r_.v.entries_[i], 0) & 0x7F)), "the control byte is part of the hash");
      full += c[i] < 128;
      del += c[i] == 0xFE;
      for (unsigned j = 0; j != i; ++j) {
        vp_assert(!(c[i] < 128) | !(c[j] < 128) | (r_.v.entries_[i] != r_.v.entries_[j]), "every key at most once");
      }
    }
    vp_assert(full == size && r_.v.size_ == size, "the size is exact");
    vp_assert(r_.v.growth_left_ == H::capacity_to_growth(N) - full - del, "the growth left is exact");
  }
  std::uint32_t* mem_;
  vp::raw<H> r_;
  std::uint32_t key_[CAP];
  bool is_[CAP];
  std::uint64_t size_, growth_;
  std::uint32_t q_, p_;
};
template <unsigned CAP>
void find() {
  table<CAP> t;
  auto const it = t->find(t.q_);
  auto const found = it != t->end();
  vp_assert(found == t.had(t.q_), "found exactly when present");
  if (vp_fork(found)) {
    vp_assert(*it == t.q_, "the entry with this key");
  }
}
template <unsigned CAP>
void insert() {
  table<CAP> t;
  auto const had = t.had(t.q_);
  vp_assume(had || t.growth_ != 0);
  auto const r = t->emplace(t.q_);
  vp_assert(r.second == !had, "inserted exactly when it was not there");
  vp_assert(*r.first == t.q_, "the entry with this key");
  vp_assert(t.template has<CAP>(t.p_) == (t.had(t.p_) || t.p_ == t.q_), "the set with this key");
  t.template ok<CAP>(t.size_ + (had ? 0 : 1));
}
template <unsigned CAP>
void grow() {
  table<CAP> t;
  vp_assume(!t.had(t.q_) && t.growth_ == 0);
  auto const r = t->emplace(t.q_);
  vp_assert(r.second && *r.first == t.q_, "inserted");
  if (vp_fork(t->capacity_ == CAP)) {
    vp_assert(t.template has<CAP>(t.p_) == (t.had(t.p_) || t.p_ == t.q_), "the set with this key");
    t.template ok<CAP>(t.size_ + 1);
  } else {
    vp_assert(t.template has<2 * CAP + 1>(t.p_) == (t.had(t.p_) || t.p_ == t.q_), "the set with this key");
    t.template ok<2 * CAP + 1>(t.size_ + 1);
  }
}
template <unsigned CAP>
void erase() {
  table<CAP> t;
  auto const had = t.had(t.q_);
  auto const n = t->erase(t.q_);
  vp_assert(n == (had ? 1U : 0U), "erased exactly when it was there");
  vp_assert(t.template has<CAP>(t.p_) == (t.had(t.p_) && t.p_ != t.q_), "the set without this key");
  t.template ok<CAP>(t.size_ - (had ? 1 : 0));
}
template <unsigned CAP>
void iterate() {
  table<CAP> t;
  std::uint64_t n = 0, seen = 0;
  for (auto const& e : *t) {
    ++n;
    seen += e == t.p_;
  }
  vp_assert(n == t.size_, "as many as the size");
  vp_assert(seen == (t.had(t.p_) ? 1U : 0U), "each key exactly once");
}
template <unsigned CAP>
void clear() {
  table<CAP> t;
  auto const live = vp_live_heap();
  t->clear();
  vp_assert(t->size() == 0 && t->begin() == t->end() && t->find(t.q_) == t->end(), "empty");
  vp_assert(vp_live_heap() == live - 1, "memory released exactly once");
  t->clear();
  vp_assert(vp_live_heap() == live - 1, "memory released exactly once");
}
template <unsigned CAP>
void moved() {
  table<CAP> t;
  auto const live = vp_live_heap();
  {
    H m{std::move(*t)};
    vp_assert(t->size() == 0 && t->begin() == t->end() && t->find(t.q_) == t->end(), "the source is empty");
    vp_assert(m.size() == t.size_ && (m.find(t.q_) != m.end()) == t.had(t.q_), "the entries moved");
    vp_assert(vp_live_heap() == live, "nothing allocated");
  }
  vp_assert(vp_live_heap() == live - 1, "memory released exactly once");
}
template <bool OLD>
void move_assign() {
  table<1> u;
  vp::raw<H> r;
  H& t = r.v;
  new (&t) H{};
  if (OLD) {
    t.emplace(u.p_);
  }
  auto const live = vp_live_heap();
  t = std::move(*u);
  vp_assert(t.size() == u.size_ && (t.find(u.q_) != t.end()) == u.had(u.q_), "the entries moved");
  vp_assert(u->size() == 0 && u->begin() == u->end(), "the source is empty");
  vp_assert(vp_live_heap() == live - (OLD ? 1 : 0), "nothing allocated, the old entries released");
  t.clear();
  vp_assert(vp_live_heap() == live - (OLD ? 2 : 1), "memory released exactly once");
}
// self assignment changes nothing
OBLIGATION(self_assign) {
  table<1> t;
  auto& same = *t;
  *t = same;
  vp_assert(t->size() == t.size_ && (t->find(t.q_) != t->end()) == t.had(t.q_), "unchanged");
  *t = std::move(same);
  vp_assert(t->size() == t.size_ && (t->find(t.q_) != t->end()) == t.had(t.q_), "unchanged");
}
OBLIGATION(move_assign_none) { move_assign<false>(); }
// known finding: the entries of the target are neither destroyed nor released
NATIVE(kf_move_assign_leak) { move_assign<true>(); }
}  // namespace
OBLIGATION(none_find) {
  H h;
  auto const q = vp::any<std::uint32_t>("q");
  vp_assert(h.find(q) == h.end() && h.begin() == h.end() && h.size() == 0 && h.empty() && h.erase(q) == 0, "empty");
}
OBLIGATION(none_insert) {
  vp::raw<H> r;
  auto const live = vp_live_heap();
  new (&r.v) H{};
  auto const q = vp::any<std::uint32_t>("q"), p = vp::any<std::uint32_t>("p");
  auto const x = r.v.emplace(q);
  vp_assert(x.second && *x.first == q && r.v.size() == 1 && r.v.capacity() == 1 && r.v.growth_left_ == 0, "inserted");
  vp_assert((r.v.find(p) != r.v.end()) == (p == q), "the set of this key");
  vp_assert(vp_live_heap() == live + 1, "one allocation");
  r.v.~H();
  vp_assert(vp_live_heap() == live, "memory released exactly once");
}
#define TABLE(OBLIGATION, N) \
  OBLIGATION(find_##N) { find<N>(); } \
  OBLIGATION(insert_##N) { insert<N>(); } \
  OBLIGATION(erase_##N) { erase<N>(); } \
  OBLIGATION(iterate_##N) { iterate<N>(); } \
  OBLIGATION(clear_##N) { clear<N>(); } \
  OBLIGATION(moved_##N) { moved<N>(); }
TABLE(OBLIGATION, 1)
TABLE(OBLIGATION, 3)
TABLE(NATIVE, 7)
OBLIGATION(grow_1) { grow<1>(); }
NATIVE(grow_3) { grow<3>(); }
