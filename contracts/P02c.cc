// P02, bounded companion: valid buffers of rich structures are damaged and deserialised from memory
// of exactly their size; whatever is accepted is walked completely (addresses are sanitised).
// Also the recorded findings.
#include "deser.h"

#include <array>
#include <memory>

namespace {
struct leaf {
  std::uint32_t x_;
  o::string s_;
  o::ptr<std::uint32_t> p_;
};
struct rich {
  std::uint32_t n_;
  o::unique_ptr<std::uint32_t> u_;
  o::ptr<std::uint32_t> p_;
  o::vector<std::uint32_t> a_;
  o::string s_, t_;
  o::cstring c_, d_;
  o::unique_ptr<leaf> l_;
  o::hash_map<o::string, std::uint32_t> m_;
  o::hash_set<std::uint64_t> h_;
  o::vector<o::vector<std::uint16_t>> vv_;
  cista::optional<o::string> os_;
  o::variant<std::uint32_t, o::string, o::vector<std::uint32_t>> v_;
  o::bitvec b_;
  o::vecvec<std::uint32_t, std::uint16_t> ve_;
  cista::tuple<o::string, std::uint32_t> tu_;
  cista::array<o::string, 2> ar_;
  o::u16string w_;
  o::vector<leaf> ls_;
};
struct plain_raw {
  std::uint32_t n_;
  r::unique_ptr<std::uint32_t> u_;
  r::ptr<std::uint32_t> p_;
  r::vector<std::uint32_t> a_;
  r::string s_;
  r::cstring c_;
  r::hash_set<std::uint64_t> h_;
};
std::uint64_t sink;
bool converted_later;
inline void use(void const* p, std::uint64_t n) {
  auto const* b = static_cast<std::uint8_t const*>(p);
  for (std::uint64_t i = 0; i != n; ++i) {
    sink += b[i];
  }
}
// walks everything that is reachable through the public interface
inline void walk(input const&, std::uint32_t const& v) { sink += v; }
inline void walk(input const&, std::uint16_t const& v) { sink += v; }
inline void walk(input const&, std::uint64_t const& v) { sink += v; }
template <typename P>
void walk(input const& in, generic_string<P> const& s) {
  accepted(in, s);
  use(s.data(), s.size() * sizeof(typename generic_string<P>::CharT));
}
template <typename P>
void walk(input const& in, generic_cstring<P> const& s) {
  accepted(in, s);
  use(s.data(), s.size() + 1);
  if (!converted_later) {  // raw pointers inside the text are converted later (kf_overlap_raw)
    vp_assert(s.data()[s.size()] == 0, "terminated");
  }
}
template <typename T>
void walk(input const& in, offset_ptr<T> const& p) {
  accepted(in, p);
  if (p != nullptr) {
    use(p.get(), sizeof(T));
  }
}
template <typename T>
void walk(input const& in, T* const& p) {
  accepted(in, p);
  if (p != nullptr) {
    use(p, sizeof(T));
  }
}
inline void walk(input const& in, leaf const& l);
template <typename T, typename P>
void walk(input const& in, basic_unique_ptr<T, P> const& u) {
  accepted(in, u);
  if (u) {
    walk(in, *u);
  }
}
template <typename T, template <typename> typename P, bool I, typename S>
void walk(input const& in, basic_vector<T, P, I, S> const& v) {
  accepted(in, v);
  for (auto const& e : v) {
    walk(in, e);
  }
}
template <typename A, typename B>
void walk(input const& in, pair<A, B> const& p) {
  walk(in, p.first);
  walk(in, p.second);
}
inline void walk(input const& in, leaf const& l) {
  walk(in, l.x_);
  walk(in, l.s_);
  walk(in, l.p_);
}
template <typename T, template <typename> typename P, typename G, typename GV, typename H, typename E>
void walk(input const& in, hash_storage<T, P, G, GV, H, E> const& h) {
  accepted(in, h);
  auto empty = h.capacity_ == 0;
  for (std::uint64_t i = 0; i != h.capacity_; ++i) {
    empty = empty || static_cast<int>(h.ctrl_[i]) == -128;
  }
  std::uint64_t n = 0;
  for (auto const& e : h) {
    walk(in, e);
    if (empty) {
      (void)h.find(G{}(e));
    }
    ++n;
  }
  vp_assert(n == h.size(), "as many elements as the size says");
}
template <typename V, typename K>
void walk(input const& in, basic_bitvec<V, K> const& v) {
  accepted(in, v);
  if (v.size() < (1U << 20)) {
    for (typename basic_bitvec<V, K>::size_type i = 0; i != v.size(); ++i) {
      sink += v.test(i);
    }
  }
}
void walk(input const& in, rich const& x) {
  walk(in, x.n_);
  walk(in, x.u_);
  walk(in, x.p_);
  walk(in, x.a_);
  walk(in, x.s_);
  walk(in, x.t_);
  walk(in, x.c_);
  walk(in, x.d_);
  walk(in, x.l_);
  walk(in, x.m_);
  walk(in, x.h_);
  walk(in, x.vv_);
  accepted(in, x.os_);
  if (x.os_.has_value()) {
    walk(in, *x.os_);
  }
  accepted(in, x.v_);
  x.v_.apply([&](auto const& e) { walk(in, e); });
  walk(in, x.b_);
  walk(in, x.ve_.data_);
  walk(in, x.ve_.bucket_starts_);
  walk(in, get<0>(x.tu_));
  walk(in, x.ar_[0]);
  walk(in, x.ar_[1]);
  walk(in, x.w_);
  walk(in, x.ls_);
}
void walk(input const& in, plain_raw const& x) {
  walk(in, x.u_);
  walk(in, x.p_);
  walk(in, x.a_);
  walk(in, x.s_);
  walk(in, x.c_);
  walk(in, x.h_);
}
std::string text(char const* n) { return std::string(vp::any_in<unsigned>(n, 0, 40), 'x'); }
byte_buf valid_rich(mode) {
  rich x{};
  auto const k = vp::any_in<unsigned>("elements", 0, 5);
  x.n_ = 7;
  if (k % 2 == 1) {
    x.u_ = o::make_unique<std::uint32_t>(5U);
    x.p_ = x.u_.get();
    x.l_ = o::make_unique<leaf>();
    x.l_->s_ = text("text");
    x.l_->p_ = x.u_.get();
  }
  x.v_ = std::uint32_t{3};
  x.s_ = text("text");
  x.t_ = text("text");
  x.c_ = o::cstring{std::string_view{text("text")}, o::cstring::owning};
  x.d_ = o::cstring{std::string_view{text("text")}, o::cstring::owning};
  for (unsigned i = 0; i != k; ++i) {
    x.a_.push_back(i);
    x.m_[o::string{text("text") + std::to_string(i)}] = i;
    x.h_.emplace(i * 77);
    x.vv_.emplace_back();
    x.vv_.back().push_back(static_cast<std::uint16_t>(i));
    x.ve_.emplace_back(std::initializer_list<std::uint16_t>{1, 2});
    x.ls_.emplace_back();
    x.ls_.back().s_ = text("text");
  }
  if (k > 2) {
    x.os_ = o::string{text("text")};
    x.v_ = o::string{text("text")};
  }
  x.b_.resize(k * 40);
  get<0>(x.tu_) = text("text");
  x.ar_[1] = text("text");
  x.w_ = std::u16string(vp::any_in<unsigned>("wide", 0, 20), u'y');
  return serialize(x);
}
byte_buf valid_raw() {
  plain_raw x{};
  auto const k = vp::any_in<unsigned>("elements", 0, 5);
  if (k % 2 == 1) {
    x.u_ = r::make_unique<std::uint32_t>(5U);
    x.p_ = x.u_.get();
  }
  x.s_ = text("text");
  x.c_ = r::cstring{std::string_view{text("text")}, r::cstring::owning};
  for (unsigned i = 0; i != k; ++i) {
    x.a_.push_back(i);
    x.h_.emplace(i * 77);
  }
  return serialize(x);
}
void damage(byte_buf& b) {
  auto const times = vp::any_in<unsigned>("damages", 0, 4);
  for (unsigned t = 0; t != times && b.size() > 8; ++t) {
    auto const how = vp::any_in<unsigned>("damage", 0, 6);
    auto const at = vp::any_in<std::uint64_t>("at", 0, b.size() - 1);
    auto const at8 = std::min<std::uint64_t>(at & ~std::uint64_t{7}, b.size() - 8) & ~std::uint64_t{7};
    auto const val = vp::any<std::uint64_t>("value");
    std::uint64_t w = 0;
    std::memcpy(&w, &b[at8], 8);
    if (how == 0) {
      b[at] = static_cast<std::uint8_t>(val);
    } else if (how == 1) {
      w += vp::any_in<std::uint64_t>("delta", 0, 128) - 64;
      std::memcpy(&b[at8], &w, 8);
    } else if (how == 2) {
      std::memcpy(&b[at8], &val, 8);
    } else if (how == 3) {
      auto const s = vp::any_in<std::uint32_t>("size", 0, 70);
      std::uint32_t const two[2] = {s, s};
      std::memcpy(&b[at8], two, 8);
    } else if (how == 4) {
      auto const from = vp::any_in<std::uint64_t>("from", 0, b.size() - 8);
      std::memmove(&b[at8], &b[from], 8);
    } else if (how == 5) {
      w ^= std::uint64_t{1} << (val % 64);
      std::memcpy(&b[at8], &w, 8);
    } else {
      b.resize(at);
    }
  }
}
template <typename T, mode M>
void damaged(byte_buf b) {
  auto const before = b;
  damage(b);
  auto const n = b.size();
  // memory of exactly this size
  void* raw = nullptr;
  vp_assume(posix_memalign(&raw, 16, n == 0 ? 1 : n) == 0);
  auto* m = static_cast<std::uint8_t*>(raw);
  std::unique_ptr<std::uint8_t, void (*)(std::uint8_t*)> hold{m, [](std::uint8_t* p) { std::free(p); }};
  std::memcpy(m, b.data(), n);
  struct view : input {
    view(std::uint8_t* p, std::uint64_t k) : input{nullptr, 0} {
      b_ = p;
      n_ = k;
    }
  } in{m, n};
  T* p = nullptr;
  try {
    p = deserialize<T, M>(m, m + n);
  } catch (std::exception const&) {
  }
  if (b == before) {
    vp_assert(p != nullptr, "a valid buffer is accepted");
  }
  if (p != nullptr) {
    in_buffer(in, p);
    walk(in, *p);
  }
}
}  // namespace
NATIVE(damaged_offset) {
  converted_later = false;
  damaged<rich, mode::NONE>(valid_rich(mode::NONE)); }
NATIVE(damaged_offset_deep) {
  converted_later = false;
  damaged<rich, mode::DEEP_CHECK>(valid_rich(mode::NONE)); }
NATIVE(damaged_raw) {
  converted_later = true;
  damaged<plain_raw, mode::NONE>(valid_raw());
}

// ------------------------------------------------------------------------------ known findings
namespace {
template <typename T, mode M>
void crafted(std::uint8_t const* bytes, std::uint64_t n) {
  alignas(16) static std::uint8_t b[256];
  std::memcpy(b, bytes, n);
  T* p = nullptr;
  try {
    p = deserialize<T, M>(b, b + n);
  } catch (std::exception const&) {
  }
  if (p != nullptr) {
    vp_assert(p->used_size_ == p->allocated_size_, "allocated = used");
    vp_assert((where(p->el_) == 0) == (p->used_size_ == 0), "null exactly when empty");
  }
}
}  // namespace
OBLIGATION(kf_overlap_big_endian) {
  // one vector of 32-bit numbers whose only element is its own allocated size
  std::uint8_t b[32] = {0, 0, 0, 0, 0, 0, 0, 8, 0, 0, 0, 1, 0, 0, 0, 1};
  crafted<o::vector<std::uint32_t>, mode::SERIALIZE_BIG_ENDIAN>(b, 32);
}
namespace {
struct two {
  r::vector<std::uint32_t> a_;
  r::vector<r::ptr<std::uint8_t>> b_;
};
}  // namespace
NATIVE(kf_overlap_raw) {
  // an empty vector, and a vector of raw pointers whose only element covers the sizes of the first
  alignas(16) std::uint8_t b[sizeof(two)] = {0};
  b[7] = 0x80;
  std::int64_t const back = -16;
  std::memcpy(b + 24, &back, 8);
  b[32] = b[36] = 1;
  two* p = nullptr;
  try {
    p = deserialize<two>(b, b + sizeof(b));
  } catch (std::exception const&) {
  }
  vp_assert(p == nullptr || ((p->a_.el_ == nullptr) == (p->a_.used_size_ == 0)), "null exactly when empty");
}
namespace {
struct chain {
  o::unique_ptr<chain> next_;
};
}  // namespace
NATIVE(kf_unique_ptr_cycle) {
  // an owned object that owns itself: deserialising never ends
  alignas(16) static std::uint8_t b[sizeof(chain)] = {0};
  auto terminated = false;
  auto& c = *reinterpret_cast<chain*>(b);
  c.next_.el_.offset_ = 0;
  try {
    deserialize<chain>(b, b + sizeof(b));
    terminated = true;
  } catch (std::exception const&) {
    terminated = true;
  }
  vp_assert(terminated, "deserialising ends");
}
