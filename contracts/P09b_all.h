// P09 on whole histories: hash maps and sets against std::map, with good, constant, colliding and
// clustering hash functions.  Bounded: histories of at most 200 operations on at most 64 keys.
#pragma once
#include <map>
#include <memory>
#include <set>
#include <string>

#include "vp.h"

#include "cista/containers/hash_map.h"
#include "cista/containers/hash_set.h"
#include "cista/containers/string.h"
#include "cista/containers/vector.h"

using namespace cista;

namespace {
// a copyable owner of memory
struct owner {
  static long live;
  owner() : p_{new std::uint32_t{0}} { ++live; }
  owner(std::uint32_t v) : p_{new std::uint32_t{v}} { ++live; }
  owner(owner const& o) : p_{new std::uint32_t{*o.p_}} { ++live; }
  owner(owner&& o) noexcept : p_{o.p_} {
    o.p_ = new std::uint32_t{0xDEAD};
    ++live;
  }
  owner& operator=(owner const& o) {
    *p_ = *o.p_;
    return *this;
  }
  owner& operator=(owner&& o) noexcept {
    std::swap(p_, o.p_);
    return *this;
  }
  ~owner() {
    delete p_;
    --live;
  }
  bool operator==(owner const& o) const { return *p_ == *o.p_; }
  bool operator!=(owner const& o) const { return *p_ != *o.p_; }
  std::uint32_t v() const { return *p_; }
  std::uint32_t* p_;
};
long owner::live = 0;

template <int KIND>
struct hash_of {
  static std::uint64_t mix(std::uint64_t x) {
    switch (KIND) {
      case 0: return hashing<std::uint64_t>{}(x);
      case 1: return 42;                               // all keys collide
      case 2: return x;                                // only the control byte differs
      case 3: return (x << 7U) | 5U;                   // same control byte
      case 4: return ((x & 3U) << 7U) | (x >> 2U);     // few starting groups
      case 5: return x << 57U;                         // only the highest bits
      default: return ((x * 6U) << 7U) | (x & 1U);     // clusters
    }
  }
  std::uint64_t operator()(std::uint32_t x) const { return mix(x); }
  std::uint64_t operator()(std::string_view s) const { return mix(s.size() * 31 + (s.empty() ? 0 : static_cast<unsigned char>(s.back()))); }
  template <typename T>
  static hash_of create() {
    return {};
  }
};

std::string text(unsigned k) { return std::string(k % 23, 'x') + static_cast<char>('a' + k); }

template <typename K>
struct keys;
template <>
struct keys<std::uint32_t> {
  static std::uint32_t own(unsigned k) { return k; }
  static std::uint32_t look(unsigned k) { return k; }
  static unsigned back(std::uint32_t k) { return k; }
};
template <typename K>
struct keys {
  static K own(unsigned k) { return K{text(k)}; }
  static std::string const& look(unsigned k) {
    static std::map<unsigned, std::string> m;
    return m.emplace(k, text(k)).first->second;
  }
  static unsigned back(K const& k) { return static_cast<unsigned char>(k.view().back()) - static_cast<unsigned>('a'); }
};
template <typename K, typename L>
decltype(auto) lookup(L const& l) {
  if constexpr (std::is_same_v<L, std::string>) {
    return std::string_view{l};
  } else {
    return L{l};
  }
}

using model = std::map<unsigned, std::uint32_t>;

// the table is in a legal state and holds exactly the model
template <typename M, typename K>
void compare(M const& m, model const& e, unsigned nkeys, bool removed_reused) {
  vp_assert(m.size() == e.size() && m.empty() == e.empty(), "size");
  std::set<unsigned> seen;
  for (auto const& x : m) {
    auto const k = keys<K>::back(x.first);
    vp_assert(seen.insert(k).second, "iteration visits each key once");
    auto const it = e.find(k);
    vp_assert(it != e.end() && x.second.v() == it->second, "iteration visits the entries");
  }
  vp_assert(seen.size() == e.size(), "iteration visits all entries");
  for (unsigned k = 0; k != nkeys; ++k) {
    auto const it = m.find(lookup<K>(keys<K>::look(k)));
    auto const w = e.find(k);
    vp_assert((it != m.end()) == (w != e.end()), "find");
    if (w != e.end()) {
      vp_assert(keys<K>::back(it->first) == k && it->second.v() == w->second, "find gives the entry");
      vp_assert(m.at(lookup<K>(keys<K>::look(k))).v() == w->second, "at gives the value");
      auto const g = m.get(lookup<K>(keys<K>::look(k)));
      vp_assert(g.has_value() && g->v() == w->second, "get gives the value");
    } else {
      auto thrown = false;
      try {
        m.at(keys<K>::own(k));
      } catch (std::out_of_range const&) {
        thrown = true;
      }
      vp_assert(thrown, "at rejects a missing key");
      vp_assert(!m.get(lookup<K>(keys<K>::look(k))).has_value(), "get of a missing key");
    }
  }
  std::uint64_t full = 0, del = 0;
  for (std::uint64_t i = 0; i != m.capacity(); ++i) {
    full += M::is_full(m.ctrl_[i]);
    del += M::is_deleted(m.ctrl_[i]);
  }
  if (m.capacity() != 0) {
    vp_assert(full == m.size() && m.ctrl_[m.capacity()] == M::END, "control bytes count the entries");
    vp_assert(full + del + m.growth_left_ == M::capacity_to_growth(m.capacity()) || removed_reused, "growth left");
    vp_assert(full + del < m.capacity() || m.capacity() < 7, "a slot stays empty");
  }
}

template <typename M, typename K>
void history() {
  auto const live0 = owner::live;
  auto const heap0 = vp_live_heap();
  {
    // M and its model
    M a, b;
    model ma, mb;
    auto const nkeys = vp::any_in<unsigned>("keys", 1, 60);
    keys<K>::look(0);
    auto const ops = vp::any_in<unsigned>("ops", 1, 120);
    std::uint32_t stamp = 1;
    for (unsigned i = 0; i != ops; ++i) {
      auto const k = vp::any_in<unsigned>("k", 0, nkeys - 1);
      auto const op = vp::any_in<unsigned>("op", 0, 19);
      ++stamp;
      switch (op) {
        case 0:
        case 1:
        case 2: {
          auto const r = a.emplace(keys<K>::own(k), owner{stamp});
          auto const w = ma.emplace(k, stamp);
          vp_assert(r.second == w.second && r.first->second.v() == w.first->second && keys<K>::back(r.first->first) == k, "emplace");
          break;
        }
        case 3: {
          auto const r = a.insert({keys<K>::own(k), owner{stamp}});
          auto const w = ma.emplace(k, stamp);
          vp_assert(r.second == w.second && r.first->second.v() == w.first->second, "insert");
          break;
        }
        case 4: {
          auto& r = a[keys<K>::own(k)];
          auto const w = ma.emplace(k, 0);
          vp_assert(r.v() == w.first->second, "operator[] gives or makes the value");
          r = owner{stamp};
          w.first->second = stamp;
          break;
        }
        case 5: {
          auto const own = keys<K>::own(k);
          auto& r = a[own];
          auto const w = ma.emplace(k, 0);
          vp_assert(r.v() == w.first->second, "operator[] gives or makes the value");
          break;
        }
        case 6:
        case 7: vp_assert(a.erase(keys<K>::own(k)) == ma.erase(k), "erase"); break;
        case 8:
        case 9: {
          vp_assert(a.erase(lookup<K>(keys<K>::look(k))) == ma.erase(k), "erase");
          break;
        }
        case 10: {
          auto const it = a.find(lookup<K>(keys<K>::look(k)));
          if (it != a.end()) {
            a.erase(it);
            ma.erase(k);
          }
          break;
        }
        case 11: {
          // every second entry is erased while iterating
          if (vp::any<bool>("sweep")) {
            auto n = 0U;
            for (auto it = a.begin(); it != a.end(); ++it) {
              if ((++n & 1U) == 0) {
                ma.erase(keys<K>::back(it->first));
                a.erase(it);
              }
            }
          }
          break;
        }
        case 12:
          if (vp::any_in<unsigned>("clear", 0, 3) == 0) {
            a.clear();
            ma.clear();
          }
          break;
        case 13:
          a.rehash();
          break;
        case 14: {
          M c{a};
          compare<M, K>(c, ma, nkeys, false);
          vp_assert(c == a && a == c, "a copy is equal");
          if (vp::any<bool>("change")) {
            c[keys<K>::own(k)] = owner{stamp};
            vp_assert(!(c == a), "a changed copy is not equal");
            vp_assert(c.size() == ma.size() + (ma.count(k) ? 0 : 1), "the copy has the key");
          }
          break;
        }
        case 15:
          b = a;
          mb = ma;
          break;
        case 16: {
          M c{std::move(a)};
          vp_assert(a.size() == 0 && a.empty() && a.begin() == a.end() && a.find(keys<K>::own(k)) == a.end(), "a moved table is empty");
          if (vp::any<bool>("reuse")) {
            a.emplace(keys<K>::own(k), owner{stamp});
            vp_assert(a.size() == 1 && a.find(keys<K>::own(k)) != a.end(), "a moved table can be used");
          }
          a.clear();  // (a target with entries is the known finding)
          a = std::move(c);
          vp_assert(c.size() == 0 && c.begin() == c.end(), "a moved table is empty");
          break;
        }
        case 17: {
          vp_assert((a == b) == (ma == mb) && (b == a) == (ma == mb), "equality of contents");
          break;
        }
        case 18: {
          // the same entries in another order
          M c;
          for (auto it = ma.rbegin(); it != ma.rend(); ++it) {
            c.emplace(keys<K>::own(it->first), owner{it->second});
          }
          vp_assert(c == a && a == c, "equality does not depend on the history");
          if (!ma.empty()) {
            c[keys<K>::own(ma.begin()->first)] = owner{0xFFFFFFFF};
            vp_assert(!(c == a) && !(a == c), "different values are different");
          }
          break;
        }
        default: {
          auto& same = a;
          a = same;
          break;
        }
      }
      if (i % 8 == 7 || i + 1 == ops) {
        compare<M, K>(a, ma, nkeys, false);
        compare<M, K>(b, mb, nkeys, false);
      }
      vp_assert(owner::live - live0 == static_cast<long>(ma.size() + mb.size()), "every entry lives exactly once");
    }
    ma.clear();
    mb.clear();
  }
  vp_assert(owner::live == live0, "all entries are destroyed");
}
// sets: fill up to several growths, tombstones, reinsertion
template <typename S>
void set_history() {
  auto const heap0 = vp_live_heap();
  {
    S s;
    auto const n = vp::any_in<unsigned>("n", 0, 300);
    auto const step = vp::any_in<unsigned>("step", 1, 9);
    auto const keep = vp::any_in<unsigned>("keep", 1, 20);
    for (unsigned i = 0; i != n; ++i) {
      vp_assert(s.emplace(i * step).second, "a new key");
      vp_assert(!s.emplace(i * step).second && !s.insert(i * step).second, "the key is there");
      if (i >= keep) {
        vp_assert(s.erase((i - keep) * step) == 1, "an old key");
        vp_assert(s.erase((i - keep) * step) == 0, "erased once");
      }
      if (i % 16 == 0) {
        for (unsigned k = 0; k <= i; ++k) {
          vp_assert((s.find(k * step) != s.end()) == (k + keep > i), "exactly the last keys");
        }
      }
    }
    vp_assert(s.size() == (n < keep ? n : keep), "size");
    std::uint64_t sum = 0, want = 0, cnt = 0;
    for (auto const x : s) {
      sum += x;
      ++cnt;
    }
    for (unsigned k = n < keep ? 0 : n - keep; k != n; ++k) {
      want += k * step;
    }
    vp_assert(sum == want && cnt == s.size(), "iteration");
    S t;
    for (unsigned k = n; k-- > (n < keep ? 0 : n - keep);) {
      t.insert(k * step);
    }
    vp_assert(t == s && s == t, "equality does not depend on the history");
    if (s.size() != 0) {
      t.erase((n - 1) * step);
      vp_assert(!(t == s) && !(s == t), "a missing key");
      t.insert(n * step);
      vp_assert(!(t == s) && !(s == t), "another key");
    }
  }
  vp_assert(vp_live_heap() == heap0, "memory released exactly once");
}
// initializer lists and ranges
template <typename M, typename S>
void lists() {
  M const m{{1, owner{10}}, {2, owner{20}}, {1, owner{30}}};
  vp_assert(m.size() == 2 && m.at(1).v() == 10 && m.at(2).v() == 20, "the first of equal keys");
  S const s{5, 4, 5, 5};
  vp_assert(s.size() == 2 && s.find(5) != s.end() && s.find(4) != s.end() && s.find(3) == s.end(), "a set");
  std::uint32_t const v[] = {7, 8, 7, 5};
  S r;
  r.insert(std::begin(v), std::end(v));
  vp_assert(r.size() == 3, "a range");
  S const copy{r};
  vp_assert(copy == r && !(r == s) && !(s == r), "equality");
  S e1, e2;
  vp_assert(e1 == e2 && !(e1 == r) && !(r == e1), "empty sets");
  e1.insert(1);
  e1.erase(1);
  vp_assert(e1 == e2 && e2 == e1 && e1.begin() == e1.end(), "empty sets");
  e1 = r;
  e1 = e2;
  vp_assert(e1.empty() && e1.begin() == e1.end(), "assigned an empty set");
}
}  // namespace
#define HIST(F, K) \
  NATIVE(map_u32_##F##_##K) { history<F::hash_map<std::uint32_t, owner, hash_of<K>>, std::uint32_t>(); } \
  NATIVE(map_string_##F##_##K) { history<F::hash_map<F::string, owner, hash_of<K>>, F::string>(); } \
  NATIVE(set_##F##_##K) { set_history<F::hash_set<std::uint32_t, hash_of<K>>>(); }
#define BOTH(K) HIST(raw, K) HIST(offset, K)
