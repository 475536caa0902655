// P18 on whole histories: pages against a list of live pages, vectors of paged vectors against
// std::vector<std::vector>.  Bounded: at most 150 operations.
#include <algorithm>
#include <cassert>
#include <string>
#include <vector>

#include "vp.h"

#include "cista/containers/paged.h"
#include "cista/containers/paged_vecvec.h"
#include "cista/containers/string.h"
#include "cista/containers/vector.h"
#include "cista/serialization.h"

using namespace cista;

namespace {
template <typename P>
struct live {
  typename P::page_t p_;
  std::vector<typename P::value_type> v_;
};
template <typename P>
void history() {
  using T = typename P::value_type;
  P p;
  std::vector<live<P>> all;
  std::uint64_t given = 0;
  auto stamp = 1U;
  auto const any_n = [](char const* nm) {
    auto const wide = vp::any_in<unsigned>("wide", 0, 15);
    auto const log = wide == 0 ? 15U : wide < 4 ? 9U : wide < 9 ? 5U : 3U;
    return vp::any_in<std::uint32_t>(nm, 0, 1U << log);
  };
  auto const fill = [&](live<P>& l) {
    for (std::size_t i = 0; i != l.p_.size_; ++i) {
      l.v_[i] = static_cast<T>(stamp++);
      p.data(l.p_)[i] = l.v_[i];
    }
  };
  auto const check = [&]() {
    std::vector<std::pair<std::uint64_t, std::uint64_t>> r;
    for (auto const& l : all) {
      vp_assert(l.p_.size_ == l.v_.size() && l.p_.capacity_ >= l.p_.size_ && l.p_.valid() && l.p_.size() == l.v_.size(), "room for the requested size");
      vp_assert(l.p_.start_ + std::uint64_t{l.p_.capacity_} <= p.data_.size(), "inside the data");
      r.emplace_back(l.p_.start_, l.p_.start_ + std::uint64_t{l.p_.capacity_});
      P const& c = p;
      for (std::size_t i = 0; i != l.v_.size(); ++i) {
        vp_assert(p.data(l.p_)[i] == l.v_[i] && c.begin(l.p_)[i] == l.v_[i], "live pages keep their content");
      }
    }
    std::sort(r.begin(), r.end());
    for (std::size_t i = 1; i < r.size(); ++i) {
      vp_assert(r[i - 1].second <= r[i].first, "live pages are disjoint");
    }
  };
  auto const ops = vp::any_in<unsigned>("ops", 1, 150);
  for (unsigned i = 0; i != ops; ++i) {
    auto const op = vp::any_in<unsigned>("op", 0, 11);
    auto const at = all.empty() ? 0 : vp::any<std::size_t>("at") % all.size();
    if (op < 4 || all.empty()) {
      auto const n = any_n("size");
      live<P> l{p.create_page(n), std::vector<T>(n)};
      vp_assert(l.p_.size_ == n, "the requested size");
      fill(l);
      all.push_back(l);
      ++given;
    } else if (op < 8) {
      auto const n = any_n("new size");
      auto& l = all[at];
      auto const old = l.v_.size();
      auto const cap = l.p_.capacity_;
      auto const start = l.p_.start_;
      l.p_ = p.resize_page(l.p_, static_cast<std::uint16_t>(n));
      vp_assert(l.p_.size_ == n, "the requested size");
      vp_assert(n > cap || (l.p_.start_ == start && l.p_.capacity_ == cap), "a page with room stays");
      for (std::size_t k = 0; k < std::min<std::size_t>(old, n); ++k) {
        vp_assert(p.data(l.p_)[k] == l.v_[k], "a resized page keeps its content");
      }
      l.v_.resize(n);
      fill(l);
    } else if (op < 11) {
      auto const before = p.data_.size();
      auto const cap = all[at].p_.capacity_;
      auto const start = all[at].p_.start_;
      p.free_page(all[at].p_);
      all.erase(all.begin() + static_cast<std::ptrdiff_t>(at));
      check();
      if (vp::any<bool>("again")) {
        live<P> l{p.create_page(cap), std::vector<T>(cap)};
        vp_assert(p.data_.size() == before && l.p_.start_ == start, "a freed page is used again");
        fill(l);
        all.push_back(l);
      }
    } else if (vp::any_in<unsigned>("clear", 0, 9) == 0) {
      p.clear();
      all.clear();
      vp_assert(p.data_.size() == 0, "empty");
    } else {
      auto thrown = false;
      auto const before = p.data_.size();
      try {
        p.create_page((1U << 15) + 1 + vp::any_in<std::size_t>("too many", 0, 100000));
      } catch (...) {
        thrown = true;
      }
      vp_assert(thrown && p.data_.size() == before, "a page that is too large is rejected");
      p.free_page(typename P::page_t{});
    }
    check();
  }
}
template <typename PV, typename K>
void check(PV& v, std::vector<std::vector<std::uint32_t>> const& m) {
  PV const& c = v;
  vp_assert(v.size() == m.size() && v.empty() == m.empty(), "buckets");
  std::size_t i = 0;
  for (auto const b : c) {
    vp_assert(i < m.size() && b.size() == m[i].size() && b.empty() == m[i].empty(), "bucket size");
    std::size_t k = 0;
    for (auto const x : b) {
      vp_assert(x == m[i][k] && b[k] == x && b.at(k) == x, "bucket content");
      ++k;
    }
    vp_assert(k == m[i].size(), "bucket content");
    if (!m[i].empty()) {
      vp_assert(b.front() == m[i].front() && b.back() == m[i].back(), "first and last");
    }
    ++i;
  }
  vp_assert(i == m.size(), "all buckets");
  i = 0;
  for (auto b : v) {
    vp_assert(std::equal(b.begin(), b.end(), m[i].begin(), m[i].end()), "bucket content");
    auto const e = v[K{static_cast<base_t<K>>(i)}];
    vp_assert(e.size() == m[i].size() && e.begin() == b.begin(), "the same bucket");
    if (!m[i].empty()) {
      vp_assert(b.front() == m[i].front() && b.back() == m[i].back() && b.at(0) == m[i][0], "first and last");
    }
    auto thrown = 0;
    try {
      b.at(m[i].size());
    } catch (...) {
      ++thrown;
    }
    vp_assert(thrown == 1, "at rejects");
    ++i;
  }
  auto thrown = 0;
  try {
    v.at(K{static_cast<base_t<K>>(m.size())});
  } catch (...) {
    ++thrown;
  }
  vp_assert(thrown == 1, "at rejects");
  if (!m.empty()) {
    vp_assert(v.front().size() == m.front().size() && v.back().size() == m.back().size() && c.back().size() == m.back().size(), "first and last bucket");
    vp_assert(v.end() - v.begin() == static_cast<std::ptrdiff_t>(m.size()) && v.begin() - v.end() == -static_cast<std::ptrdiff_t>(m.size()) && c.begin() - c.end() == -static_cast<std::ptrdiff_t>(m.size()), "distance");
  }
}
template <typename Vec>
Vec copy_of(Vec const& v) {
  return Vec{v};
}
template <typename PV, typename K>
void buckets() {
  PV v;
  std::vector<std::vector<std::uint32_t>> m;
  check<PV, K>(v, m);
  auto stamp = 1U;
  auto const some = [&]() {
    auto const wide = vp::any_in<unsigned>("wide", 0, 9);
    std::vector<std::uint32_t> r(vp::any_in<unsigned>("n", 0, wide == 0 ? 700 : wide < 4 ? 40 : 5));
    for (auto& x : r) {
      x = stamp++;
    }
    return r;
  };
  auto const ops = vp::any_in<unsigned>("ops", 1, 120);
  for (unsigned i = 0; i != ops; ++i) {
    auto const op = vp::any_in<unsigned>("op", 0, 15);
    auto const at = m.empty() ? 0 : vp::any<std::size_t>("at") % m.size();
    auto const key = K{static_cast<base_t<K>>(at)};
    if (op < 2 || m.empty()) {
      auto const x = some();
      v.emplace_back(x);
      m.push_back(x);
    } else if (op == 2) {
      v.emplace_back({stamp, stamp + 1, stamp + 2});
      m.push_back({stamp, stamp + 1, stamp + 2});
      stamp += 3;
    } else if (op == 3) {
      v.emplace_back_empty();
      m.emplace_back();
    } else if (op < 8) {
      for (auto n = vp::any_in<unsigned>("times", 1, 20); n != 0; --n) {
        v[key].push_back(stamp);
        m[at].push_back(stamp++);
      }
    } else if (op == 8 && !m[at].empty()) {
      auto const k = vp::any<std::size_t>("k") % m[at].size();
      v[key].push_back(v[key][k]);
      m[at].push_back(copy_of(m[at])[k]);
    } else if (op == 9) {
      auto const k = vp::any<std::size_t>("k") % (m[at].size() + 1);
      auto b = v[key];
      auto const it = b.insert(b.begin() + static_cast<std::ptrdiff_t>(k), stamp);
      m[at].insert(m[at].begin() + static_cast<std::ptrdiff_t>(k), stamp);
      vp_assert(*b.begin() == m[at][0] && it == b.begin() + static_cast<std::ptrdiff_t>(k) + 1 - (it == b.begin() + static_cast<std::ptrdiff_t>(k) ? 1 : 0), "inserted");
      ++stamp;
    } else if (op == 10) {
      auto const x = some();
      v.insert(key, x);
      m.insert(m.begin() + static_cast<std::ptrdiff_t>(at), x);
    } else if (op == 11) {
      auto const n = vp::any_in<unsigned>("buckets", 0, static_cast<unsigned>(m.size()) + 3);
      v.resize(n);
      m.resize(n);
    } else if (op == 12 && vp::any_in<unsigned>("clear", 0, 9) == 0) {
      v.clear();
      m.clear();
    } else if (op == 13) {
      auto c = v;
      check<PV, K>(c, m);
      c[key].push_back(7);
      c.emplace_back_empty();
    } else if (op == 14) {
      auto thrown = 0;
      std::vector<std::uint32_t> big(vp::any<bool>("very") ? 70000 : 32769);
      try {
        v.emplace_back(big);
      } catch (...) {
        ++thrown;
      }
      try {
        v.insert(key, big);
      } catch (...) {
        ++thrown;
      }
      vp_assert(thrown == 2, "a bucket that is too large is rejected");
    } else {
      // a bucket of another bucket
      v.emplace_back(copy_of(m[at]));
      m.push_back(copy_of(m[at]));
      if (!m[at].empty()) {
        v[key][0] = stamp;
        m[at][0] = stamp++;
      }
    }
    check<PV, K>(v, m);
  }
}
template <typename PV>
void texts() {
  PV v;
  std::vector<std::string> m;
  auto const ops = vp::any_in<unsigned>("ops", 1, 60);
  for (unsigned i = 0; i != ops; ++i) {
    auto const op = vp::any_in<unsigned>("op", 0, 4);
    auto const at = m.empty() ? 0 : vp::any<std::size_t>("at") % m.size();
    auto const t = std::string(vp::any_in<unsigned>("n", 0, 40), static_cast<char>('a' + i % 26));
    if (op < 2 || m.empty()) {
      v.emplace_back(t);
      m.push_back(t);
    } else if (op == 2) {
      v.emplace_back(t.c_str());
      m.push_back(t);
    } else if (op == 3) {
      for (auto const c : t) {
        v[static_cast<std::uint32_t>(at)].push_back(c);
      }
      m[at] += t;
    } else {
      v.resize(static_cast<std::uint32_t>(at));
      m.resize(at);
    }
    PV const& c = v;
    vp_assert(v.size() == m.size(), "texts");
    for (std::size_t k = 0; k != m.size(); ++k) {
      vp_assert(c[static_cast<std::uint32_t>(k)].view() == m[k] && v[static_cast<std::uint32_t>(k)].view() == m[k], "text");
    }
  }
}
template <template <typename, typename...> typename V>
struct none {};
using key = strong<std::uint32_t, struct pv_key_>;
template <typename T>
using rp = paged<raw::vector<T>>;
template <typename T>
using op = paged<offset::vector<T>>;
using r_pv = paged_vecvec<raw::vector<page<std::uint32_t, std::uint16_t>>, rp<std::uint32_t>, std::uint32_t>;
using o_pv = paged_vecvec<offset::vector<page<std::uint32_t, std::uint16_t>>, op<std::uint32_t>, key>;
using r_pc = paged_vecvec<raw::vector<page<std::uint32_t, std::uint16_t>>, rp<char>, std::uint32_t>;
}  // namespace
NATIVE(pages_u32_raw) { history<rp<std::uint32_t>>(); }
NATIVE(pages_u32_off) { history<op<std::uint32_t>>(); }
NATIVE(pages_u64_raw) { history<rp<std::uint64_t>>(); }
NATIVE(pages_u16_raw) { history<rp<std::uint16_t>>(); }
NATIVE(pages_char_raw) { history<rp<char>>(); }
NATIVE(buckets_raw) { buckets<r_pv, std::uint32_t>(); }
NATIVE(buckets_off) { buckets<o_pv, key>(); }
NATIVE(texts_raw) { texts<r_pc>(); }
