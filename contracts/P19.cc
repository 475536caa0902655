// P19: a flat matrix addresses each cell exactly once.
#include "vp.h"
#include "arb.h"

#include "cista/containers/flat_matrix.h"

using namespace cista;

namespace {
// an arbitrary matrix of r x c cells (r * c below 2^31), arbitrary content
template <typename M>
struct arb {
  arb() {
    new (&m_.v) M{};
    r_ = vp::any_size<std::uint32_t>("rows", 0, ~0u);
    c_ = vp::any_size<std::uint32_t>("columns", 0, ~0u);
    vp_assume(std::uint64_t{r_} * c_ < (std::uint64_t{1} << 31) && r_ != 0 && c_ != 0);
    n_ = r_ * c_;
    auto& e = m_.v.entries_;
    e.el_ = vp::any_array<typename M::value_type>(n_, "cells");
    e.used_size_ = e.allocated_size_ = n_;
    e.self_allocated_ = true;
    m_.v.n_rows_ = r_;
    m_.v.n_columns_ = c_;
  }
  M& operator*() { return m_.v; }
  vp::raw<M> m_;
  std::uint32_t r_, c_, n_;
};

template <typename M>
void cells() {
  arb<M> a;
  auto& m = *a;
  auto const& cm = m;
  using T = typename M::value_type;
  auto const i = vp::any_size<std::uint32_t>("i", 0, ~0u), j = vp::any_size<std::uint32_t>("j", 0, ~0u);
  auto const k = vp::any_size<std::uint32_t>("k", 0, ~0u), l = vp::any_size<std::uint32_t>("l", 0, ~0u);
  vp_assume(i < a.r_ && j < a.c_ && k < a.r_ && l < a.c_);
  auto const v = vp::any<T>("v");
  auto const old = m(k, l);
  m(i, j) = v;
  auto const want = (i == k && j == l) ? v : old;
  vp_assert(m(i, j) == v, "reading returns what was written");
  vp_assert(m(k, l) == want, "exactly that cell changes");
  vp_assert(&m[i][j] == &m(i, j), "row then column is the same cell");
  vp_assert(&cm[i][j] == &m(i, j), "const row then column is the same cell");
  vp_assert(&m.at(i)[j] == &m(i, j) && &cm.at(i)[j] == &m(i, j), "checked row access is the same cell");
  vp_assert((&m(i, j) == &m(k, l)) == (i == k && j == l), "distinct cells never share storage");
  vp_assert(&m(i, j) >= m.entries_.begin() && &m(i, j) < m.entries_.end(), "cells are inside the entries");
}
template <typename M>
void rows() {
  arb<M> a;
  auto& m = *a;
  auto const& cm = m;
  auto const i = vp::any_size<std::uint32_t>("i", 0, ~0u), j = vp::any_size<std::uint32_t>("j", 0, ~0u);
  vp_assume(i < a.r_ && j < a.c_);
  auto r = m[i];
  auto const& cr = r;
  auto const cc = cm[i];
  vp_assert(r.begin() + j == &m(i, j) && r.end() == r.begin() + a.c_, "row iteration covers the row");
  vp_assert(cr.begin() + j == &m(i, j) && cr.end() == cr.begin() + a.c_, "const iteration of a row covers it");
  vp_assert(cc.begin() + j == &m(i, j) && cc.end() == cc.begin() + a.c_, "const row iteration covers the row");
  vp_assert(begin(r) == r.begin() && end(r) == r.end() && begin(cc) == cc.begin() && end(cc) == cc.end() &&
                begin(cr) == cr.begin() && end(cr) == cr.end(),
            "free begin and end");
}
template <typename M>
void checked() {
  arb<M> a;
  auto& m = *a;
  auto const& cm = m;
  auto const i = vp::any_size<std::uint32_t>("i", 0, ~0u);
  int threw = 0;
  try {
    (void)m.at(i);
  } catch (std::exception const&) {
    ++threw;
  }
  try {
    (void)cm.at(i);
  } catch (std::exception const&) {
    ++threw;
  }
  vp_assert(threw == (i < a.r_ ? 0 : 2), "checked access rejects exactly the rows out of range");
}
template <typename M>
void reset() {
  arb<M> a;
  auto& m = *a;
  auto const k = vp::any_size<std::uint32_t>("k", 0, ~0u), l = vp::any_size<std::uint32_t>("l", 0, ~0u);
  vp_assume(k < a.r_ && l < a.c_);
  auto const v = vp::any<typename M::value_type>("v");
  m.reset(v);
  vp_assert(m(k, l) == v, "every cell holds the value");
  vp_assert(m.n_rows_ == a.r_ && m.n_columns_ == a.c_ && m.entries_.size() == a.n_, "shape unchanged");
}
template <typename M>
void resize() {
  arb<M> a;
  auto& m = *a;
  auto const r = vp::any_size<std::uint32_t>("r", 0, ~0u), c = vp::any_size<std::uint32_t>("c", 0, ~0u);
  vp_assume(std::uint64_t{r} * c < (std::uint64_t{1} << 31));
  auto const k = vp::any_size<std::uint32_t>("k", 0, ~0u);
  vp_assume(k < a.n_ && k < r * c);
  auto const old = m.entries_[k];
  m.resize(r, c);
  vp_assert(m.n_rows_ == r && m.n_columns_ == c, "requested shape");
  vp_assert(m.entries_.size() == r * c, "one entry per cell");
  vp_assert(m.entries_[k] == old, "leading entries are kept");
}
template <typename M>
void resize_fresh() {
  vp::raw<M> x;
  new (&x.v) M{};
  auto const r = vp::any_size<std::uint32_t>("r", 0, ~0u), c = vp::any_size<std::uint32_t>("c", 0, ~0u);
  vp_assume(std::uint64_t{r} * c < (std::uint64_t{1} << 31));
  x.v.resize(r, c);
  vp_assert(x.v.n_rows_ == r && x.v.n_columns_ == c && x.v.entries_.size() == r * c, "requested shape");
  auto const i = vp::any_size<std::uint32_t>("i", 0, ~0u), j = vp::any_size<std::uint32_t>("j", 0, ~0u);
  vp_assume(i < r && j < c);
  vp_assert(x.v[i][j] == 0, "new cells are value-initialised");
}
}  // namespace

#define FLAVOUR(tag, M)                       \
  OBLIGATION(cells_##tag) { cells<M>(); }     \
  OBLIGATION(rows_##tag) { rows<M>(); }       \
  OBLIGATION(checked_##tag) { checked<M>(); } \
  OBLIGATION(reset_##tag) { reset<M>(); }     \
  OBLIGATION(resize_##tag) { resize<M>(); }   \
  OBLIGATION(fresh_##tag) { resize_fresh<M>(); }
FLAVOUR(raw_u32, raw::flat_matrix<std::uint32_t>)
FLAVOUR(off_u32, offset::flat_matrix<std::uint32_t>)
FLAVOUR(raw_u8, raw::flat_matrix<std::uint8_t>)
FLAVOUR(off_u64, offset::flat_matrix<std::uint64_t>)

OBLIGATION(make_raw) {
  auto const r = vp::any_size<std::uint32_t>("r", 0, ~0u), c = vp::any_size<std::uint32_t>("c", 0, ~0u);
  auto const v = vp::any<std::uint32_t>("v");
  vp_assume(std::uint64_t{r} * c < (std::uint64_t{1} << 31));
  auto m = raw::make_flat_matrix<std::uint32_t>(r, c, v);
  vp_assert(m.n_rows_ == r && m.n_columns_ == c && m.entries_.size() == r * c, "requested shape");
  auto const i = vp::any_size<std::uint32_t>("i", 0, ~0u), j = vp::any_size<std::uint32_t>("j", 0, ~0u);
  vp_assume(i < r && j < c);
  vp_assert(m(i, j) == v, "every cell has the initial value");
}
OBLIGATION(make_offset) {
  auto const r = vp::any_size<std::uint32_t>("r", 0, ~0u), c = vp::any_size<std::uint32_t>("c", 0, ~0u);
  auto const v = vp::any<std::uint32_t>("v");
  vp_assume(std::uint64_t{r} * c < (std::uint64_t{1} << 31));
  auto m = offset::make_flat_matrix<std::uint32_t>(r, c, v);
  vp_assert(m.n_rows_ == r && m.n_columns_ == c && m.entries_.size() == r * c, "requested shape");
  auto const i = vp::any_size<std::uint32_t>("i", 0, ~0u), j = vp::any_size<std::uint32_t>("j", 0, ~0u);
  vp_assume(i < r && j < c);
  vp_assert(m(i, j) == v, "every cell has the initial value");
}

// concrete shapes, all cells, element type with ownership
NATIVE(small_shapes) {
  auto const r = vp::any_in<std::uint32_t>("r", 0, 7), c = vp::any_in<std::uint32_t>("c", 0, 7);
  auto m = offset::make_flat_matrix<std::uint16_t>(r, c, 7);
  std::uint16_t x = 0;
  for (auto i = 0u; i != r; ++i) {
    for (auto& e : m[i]) {
      vp_assert(e == 7, "initial value");
      e = ++x;
    }
  }
  vp_assert(x == r * c, "row iteration visits every cell");
  x = 0;
  auto const& cm = m;
  for (auto i = 0u; i != r; ++i) {
    auto j = 0u;
    for (auto const& e : cm[i]) {
      vp_assert(e == ++x && &e == &m(i, j++), "in order");
    }
  }
  auto copy = m;
  copy.reset(3);
  for (auto i = 0u; i != r; ++i) {
    for (auto j = 0u; j != c; ++j) {
      vp_assert(m(i, j) == i * c + j + 1 && copy(i, j) == 3, "copies are independent");
    }
  }
  auto const r2 = vp::any_in<std::uint32_t>("r2", 0, 9), c2 = vp::any_in<std::uint32_t>("c2", 0, 9);
  m.resize(r2, c2);
  for (auto i = 0u; i != r2; ++i) {
    for (auto j = 0u; j != c2; ++j) {
      m[i][j] = static_cast<std::uint16_t>(i * 100 + j);
    }
  }
  for (auto i = 0u; i != r2; ++i) {
    for (auto j = 0u; j != c2; ++j) {
      vp_assert(m.at(i)[j] == i * 100 + j, "after resize");
    }
  }
}
