// P01: serialising and deserialising gives back an equal value.
// For each building block: an arbitrary value is serialised at an arbitrary position of a target with
// arbitrary content; deserialising that position (checked) succeeds and yields an equal value whose
// pointers stay inside the data; all bytes written before stay as they were.
// P01b.cc composes these contracts; P01c.cc holds the bounded companions.
#include "ser.h"

namespace {
template <typename T, mode M>
struct trip {
  explicit trip(T const& v) : v_{&v} {
    at_ = vp::any_size<std::uint64_t>("at", 0, MAXB, 40);
    vp_assume(at_ % alignof(T) == 0 && at_ <= m_.n_ && sizeof(T) <= m_.n_ - at_);
    std::memcpy(static_cast<void*>(m_.m_ + at_), static_cast<void const*>(&v), sizeof(T));
    k_ = vp::index("k");
    vp_assume(k_ < m_.n_ && (k_ < at_ || k_ >= at_ + sizeof(T)));
    old_ = m_.m_[k_];
    context<M> c{m_};
    serialize(c, v_, static_cast<offset_t>(at_));
    vp_assert(m_.m_[k_] == old_, "what was written before stays");
    offsets_ = c.offsets_;
    ranges_ = c.vector_ranges_;
    deserialization_context<M> const d{m_.m_, m_.m_ + m_.n_};
    auto thrown = false;
    try {
      deserialize(d, reinterpret_cast<T*>(m_.m_ + at_));
    } catch (...) {
      thrown = true;
    }
    vp_assert(!thrown, "a serialised value is accepted");
    if (vp_fork(thrown)) {
      vp_assume(false);
    }
    vp_assert(m_.m_[k_] == old_, "what was written before stays as it was");
  }
  T const& operator*() const { return *reinterpret_cast<T const*>(m_.m_ + at_); }
  T const* operator->() const { return reinterpret_cast<T const*>(m_.m_ + at_); }
  T const* v_;
  memory m_;
  std::uint64_t at_, k_;
  std::uint8_t old_;
  remembered offsets_;
  remembered_range ranges_;
};

// --------------------------------------------------------------------------------------- scalars
template <typename T, mode M>
void scalar() {
  auto const v = vp::any<T>("v");
  trip<T, M> t{v};
  vp_assert(*t == v, "the same value");
}
enum class colour : std::uint16_t { RED, GREEN };
struct flat {
  std::uint8_t a_;
  std::uint32_t b_;
  std::int64_t c_;
  bool d_;
  std::uint16_t e_;
};
struct flat2 {
  flat f_;
  std::uint8_t z_;
  cista::array<std::uint16_t, 3> r_;
};
flat any_flat() {
  return {vp::any<std::uint8_t>("a"), vp::any<std::uint32_t>("b"), vp::any<std::int64_t>("c"), vp::any<bool>("d"), vp::any<std::uint16_t>("e")};
}
void same(flat const& a, flat const& b) {
  vp_assert(a.a_ == b.a_ && a.b_ == b.b_ && a.c_ == b.c_ && a.d_ == b.d_ && a.e_ == b.e_, "the same members");
}
template <mode M>
void structs() {
  flat2 v{any_flat(), vp::any<std::uint8_t>("z"), {}};
  for (auto& x : v.r_) {
    x = vp::any<std::uint16_t>("x");
  }
  trip<flat2, M> t{v};
  same(t->f_, v.f_);
  vp_assert(t->z_ == v.z_ && t->r_[0] == v.r_[0] && t->r_[1] == v.r_[1] && t->r_[2] == v.r_[2], "the same members");
}
template <mode M>
void pairs() {
  cista::pair<std::uint8_t, std::uint32_t> const v{vp::any<std::uint8_t>("a"), vp::any<std::uint32_t>("b")};
  trip<cista::pair<std::uint8_t, std::uint32_t>, M> t{v};
  vp_assert(t->first == v.first && t->second == v.second, "the same pair");
}
template <mode M>
void std_pairs() {
  std::pair<std::uint64_t, std::uint16_t> const v{vp::any<std::uint64_t>("a"), vp::any<std::uint16_t>("b")};
  trip<std::pair<std::uint64_t, std::uint16_t>, M> t{v};
  vp_assert(t->first == v.first && t->second == v.second, "the same pair");
}
template <mode M>
void tuples() {
  using T = cista::tuple<std::uint8_t, std::uint32_t, std::uint64_t>;
  T const v{vp::any<std::uint8_t>("a"), vp::any<std::uint32_t>("b"), vp::any<std::uint64_t>("c")};
  trip<T, M> t{v};
  vp_assert(get<0>(*t) == get<0>(v) && get<1>(*t) == get<1>(v) && get<2>(*t) == get<2>(v), "the same tuple");
}
template <mode M>
void bitsets() {
  using T = cista::bitset<100>;
  T v{};
  v.blocks_[0] = vp::any<std::uint64_t>("b0");
  v.blocks_[1] = vp::any<std::uint64_t>("b1");
  trip<T, M> t{v};
  vp_assert(t->blocks_[0] == v.blocks_[0] && t->blocks_[1] == v.blocks_[1], "the same bits");
}
template <mode M>
void optionals() {
  using T = cista::optional<std::uint32_t>;
  T v{};
  if (vp_fork(vp::any<bool>("engaged"))) {
    v = vp::any<std::uint32_t>("v");
  }
  trip<T, M> t{v};
  vp_assert(t->has_value() == v.has_value(), "engaged or not");
  if (vp_fork(v.has_value())) {
    vp_assert(**t == *v, "the same value");
  }
}
template <mode M>
void variants() {
  using T = cista::variant<std::uint32_t, std::uint64_t, std::uint8_t>;
  T v{};
  auto const k = vp::any_in<unsigned>("which", 0, 2);
  if (vp_fork(k == 0)) {
    v = vp::any<std::uint32_t>("v");
  } else if (vp_fork(k == 1)) {
    v = vp::any<std::uint64_t>("v");
  } else {
    v = vp::any<std::uint8_t>("v");
  }
  trip<T, M> t{v};
  vp_assert(t->index() == k, "the same alternative");
  if (vp_fork(k == 0)) {
    vp_assert(cista::get<std::uint32_t>(*t) == cista::get<std::uint32_t>(v), "the same value");
  } else if (vp_fork(k == 1)) {
    vp_assert(cista::get<std::uint64_t>(*t) == cista::get<std::uint64_t>(v), "the same value");
  } else {
    vp_assert(cista::get<std::uint8_t>(*t) == cista::get<std::uint8_t>(v), "the same value");
  }
}
template <mode M>
void durations() {
  using T = std::chrono::duration<std::int64_t, std::ratio<1>>;
  T const v{vp::any<std::int64_t>("v")};
  trip<T, M> t{v};
  vp_assert(*t == v, "the same duration");
  std::chrono::time_point<std::chrono::system_clock, T> const p{v};
  trip<std::chrono::time_point<std::chrono::system_clock, T>, M> q{p};
  vp_assert(*q == p, "the same time");
}
template <mode M>
void strongs() {
  using T = cista::strong<std::uint32_t, struct tag_>;
  T const v{vp::any<std::uint32_t>("v")};
  trip<T, M> t{v};
  vp_assert(*t == v, "the same index");
}

// --------------------------------------------------------------------------------------- vectors
// In two steps with a common predicate: serialising leaves an image of the value, and deserialising an
// image of a value yields that value.
template <typename T, mode M>
T load(memory const& m, std::uint64_t at) {
  T v;
  std::memcpy(&v, m.m_ + at, sizeof(T));
  return ::cista::convert_endian<M>(v);
}
// the image at `at` of a vector of n elements placed at `start`, whose i-th element is x
enum what { EMPTY, FIELDS, ELEMENT, FRAME };
template <typename V, mode M>
bool vector_fields(memory const& m, std::uint64_t at, typename V::size_type n, std::uint64_t start) {
  using S = typename V::size_type;
  return load<S, M>(m, at + cista_member_offset(V, used_size_)) == n && load<S, M>(m, at + cista_member_offset(V, allocated_size_)) == n &&
         load<std::uint8_t, mode::NONE>(m, at + cista_member_offset(V, self_allocated_)) == 0 &&
         load<std::int64_t, M>(m, at) == static_cast<std::int64_t>(start - at);
}
// any place for an object of type T in a target
template <typename T>
struct somewhere {
  somewhere() {
    at_ = vp::any_size<std::uint64_t>("at", 0, MAXB, 40);
    vp_assume(at_ % alignof(T) == 0 && at_ <= m_.n_ && sizeof(T) <= m_.n_ - at_);
    k_ = vp::index("k");
    vp_assume(k_ < m_.n_ && (k_ < at_ || k_ >= at_ + sizeof(T)));
    old_ = m_.m_[k_];
  }
  void untouched() const { vp_assert(m_.m_[k_] == old_, "everything else stays"); }
  T* operator->() const { return reinterpret_cast<T*>(m_.m_ + at_); }
  template <mode M>
  void accept() {
    deserialization_context<M> const d{m_.m_, m_.m_ + m_.n_};
    auto thrown = false;
    try {
      deserialize(d, reinterpret_cast<T*>(m_.m_ + at_));
    } catch (...) {
      thrown = true;
    }
    vp_assert(!thrown, "a serialised value is accepted");
    if (vp_fork(thrown)) {
      vp_assume(false);
    }
  }
  memory m_;
  std::uint64_t at_, k_;
  std::uint8_t old_;
};
template <typename V, mode M, what W>
void vector_out() {
  using T = typename V::value_type;
  vp::raw<V> a;
  vp::arb_vector(a, static_cast<typename V::size_type>(1U << 30), true);
  auto const n = a.v.size();
  vp_assume((n == 0) == (W == EMPTY));
  somewhere<V> s;
  context<M> c{s.m_};
  auto const data = s.m_.n_;
  auto const i = vp::index("i");
  vp_assume(W != ELEMENT || i < n);
  serialize(c, &a.v, static_cast<offset_t>(s.at_));
  if constexpr (W == EMPTY) {
    s.untouched();
    vp_assert(vector_fields<V, M>(s.m_, s.at_, 0, s.at_ + static_cast<std::uint64_t>(NULLPTR_OFFSET)), "an image of the vector");
  } else if constexpr (W == FRAME) {
    s.untouched();
    vp_assert(s.m_.last_ >= data && s.m_.last_ % alignof(T) == 0 && s.m_.n_ == s.m_.last_ + std::uint64_t{n} * sizeof(T), "its elements are placed behind the data");
  } else if constexpr (W == FIELDS) {
    vp_assert(vector_fields<V, M>(s.m_, s.at_, n, s.m_.last_), "an image of the vector");
  } else {
    vp_assert(load<T, M>(s.m_, s.m_.last_ + i * sizeof(T)) == a.v.begin()[i], "an image of the element");
  }
}
template <typename V, mode M, what W>
void vector_in() {
  using T = typename V::value_type;
  using S = typename V::size_type;
  somewhere<V> s;
  auto const n = vp::any_in<S>("size", 0, 1U << 30);
  vp_assume((n == 0) == (W == EMPTY));
  auto const start = W == EMPTY ? s.at_ + static_cast<std::uint64_t>(NULLPTR_OFFSET) : vp::any_size<std::uint64_t>("start", 0, MAXB, 40);
  auto const i = vp::index("i");
  auto const x = vp::any<T>("x");
  auto const end = start + std::uint64_t{n} * sizeof(T);
#ifdef VP_NATIVE
  (void)end;
#else
  if constexpr (W != EMPTY) {
    vp_assume(start % alignof(T) == 0);
    vp_assume(start >= s.at_ + sizeof(V));
    vp_assume(end <= s.m_.n_);
    vp_assume(s.k_ < start || s.k_ >= end);
  }
  vp_assume((vector_fields<V, M>(s.m_, s.at_, n, start)));
  if constexpr (W == ELEMENT) {
    vp_assume(i < n);
    vp_assume((load<T, M>(s.m_, start + i * sizeof(T)) == x));
  }
#endif
  s.template accept<M>();
  if constexpr (W == EMPTY) {
    s.untouched();
    vp_assert(s->used_size_ == 0 && s->allocated_size_ == 0 && !s->self_allocated_ && s->begin() == nullptr, "empty");
  } else if constexpr (W == FRAME) {
    s.untouched();
  } else if constexpr (W == FIELDS) {
    vp_assert(s->used_size_ == n && s->allocated_size_ == n && !s->self_allocated_, "the same size");
    vp_assert(reinterpret_cast<std::uint8_t const*>(s->begin()) == s.m_.m_ + start, "the elements are inside the data");
  } else {
    vp_assert(*reinterpret_cast<T const*>(s.m_.m_ + start + i * sizeof(T)) == x, "the same elements");
  }
}
// natively, both steps at once
template <typename V, mode M>
void vectors() {
  vp::raw<V> a;
  vp::arb_vector(a, static_cast<typename V::size_type>(40), true);
  trip<V, M> t{a.v};
  vp_assert(t->size() == a.v.size(), "the same size");
  for (typename V::size_type i = 0; i != a.v.size(); ++i) {
    vp_assert(t->begin()[i] == a.v.begin()[i], "the same elements");
  }
}
template <mode M>
void indexed_vectors() {
  using V = o::indexed_vector<std::uint32_t>;
  vp::raw<V> a;
  vp::arb_vector(a, 1U << 30, true);
  somewhere<V> s;
  context<M> c{s.m_};
  serialize(c, &a.v, static_cast<offset_t>(s.at_));
  if (vp_fork(a.v.begin() != nullptr)) {
    vp_assert(c.vector_ranges_.n_ == 1 && c.vector_ranges_.key_ == a.v.begin() && c.vector_ranges_.value_.size_ == std::uint64_t{a.v.size()} * 4U, "its range is remembered");
    vp_assert(a.v.size() == 0 || static_cast<std::uint64_t>(c.vector_ranges_.value_.start_) == s.m_.last_, "with the place of its image");
  }
}
template <mode M>
void bitvecs() {
  using V = o::bitvec;
  vp::raw<V> a;
  new (&a.v) V{};
  using B = decltype(a.v.blocks_);
  vp::raw<B> b;
  vp::arb_vector(b, 1U << 20, true);
  std::memcpy(static_cast<void*>(&a.v.blocks_), static_cast<void const*>(&b.v), sizeof(B));
  a.v.blocks_.el_ = b.v.el_;
  a.v.size_ = vp::any_size<std::uint32_t>("bits", 0, 1U << 26, 500);
  vp_assume(a.v.blocks_.used_size_ == a.v.size_ / 64 + (a.v.size_ % 64 != 0 ? 1 : 0));
  somewhere<V> s;
  context<M> c{s.m_};
  serialize(c, &a.v, static_cast<offset_t>(s.at_));
  s.untouched();
  vp_assert(load<typename V::size_type, M>(s.m_, s.at_ + cista_member_offset(V, size_)) == a.v.size_, "the length");
  vp_assert(vector_fields<B, M>(s.m_, s.at_ + cista_member_offset(V, blocks_), a.v.blocks_.used_size_, a.v.size_ == 0 ? s.at_ + cista_member_offset(V, blocks_) + static_cast<std::uint64_t>(NULLPTR_OFFSET) : s.m_.last_), "an image of the blocks");
}

// --------------------------------------------------------------------------------------- strings
template <typename S, mode M>
void strings() {
  using C = typename S::CharT;
  vp::raw<S> a;
  new (&a.v) S{};
  constexpr auto L = S::short_length_limit;
  // (long wide text is converted character by character: natively in P01c)
  constexpr auto ALWAYS_SHORT = sizeof(C) > 1 && M == BE;
  auto const shrt = ALWAYS_SHORT || vp_fork(vp::any<bool>("short"));
  auto const n = ALWAYS_SHORT ? 0U : vp::any_size<std::uint32_t>("length", 0, 1U << 28, 40);
  if (shrt) {
    a.v.s_ = typename S::stack{};
    for (std::uint32_t i = 0; i != L; ++i) {
      a.v.s_.s_[i] = vp::any<C>("c");
    }
  } else {
    auto* const mem = vp::any_array<C>(n, "text");
    a.v.h_ = typename S::heap{};
    a.v.h_.ptr_ = n == 0 ? nullptr : mem;
    a.v.h_.size_ = n;
    a.v.h_.self_allocated_ = false;
  }
  trip<S, M> t{a.v};
  vp_assert(t->is_short() == shrt, "short or long");
  if (shrt) {
    // (a short text ends at its first zero: the known finding of P07 about zero characters)
    auto ended = false;
    for (std::uint32_t i = 0; i != L; ++i) {
      vp_assert(ended | (t->s_.s_[i] == a.v.s_.s_[i]), "the same text");
      ended = ended | (a.v.s_.s_[i] == 0);
    }
  } else {
    vp_assert(t->size() == n, "the same length");
    auto const i = vp::index("i");
    if (vp_fork(i < n)) {
      vp_assert(inside(t.m_, t->data(), n), "the text is inside the data");
      vp_assert(t->data()[i] == a.v.data()[i], "the same text");
    }
  }
}
template <typename S, mode M>
void cstrings() {
  vp::raw<S> a;
  new (&a.v) S{};
  auto const n = vp::any_size<std::uint32_t>("length", 0, 1U << 28, 40);
  auto const shrt = vp_fork(n <= 15);
  if (shrt) {
    for (std::uint32_t i = 0; i != 15; ++i) {
      auto const c = vp::any<char>("c");
      vp_assume(i < n || c == 0);
      a.v.s_.s_[i] = c;
    }
    a.v.s_.remaining_ = static_cast<std::int8_t>(15 - n);
  } else {
    auto* const mem = vp::any_array<char>(std::uint64_t{n} + 1, "text");
    mem[n] = 0;
    a.v.h_ = typename S::heap{};
    a.v.h_.ptr_ = mem;
    a.v.h_.size_ = n;
    a.v.h_.self_allocated_ = true;
    a.v.h_.minus_one_ = -1;
  }
  trip<S, M> t{a.v};
  vp_assert(t->is_short() == shrt && t->size() == n, "the same length");
  auto const i = vp::any_size<std::uint64_t>("i", 0, MAXB, 40);
  vp_index(i);
  if (vp_fork(i <= n)) {
    vp_assert(shrt || inside(t.m_, t->data(), std::uint64_t{n} + 1), "the text is inside the data");
    vp_assert(t->data()[i] == a.v.data()[i], "the same text and terminator");
  }
}

// ------------------------------------------------------------------------------- hash containers
template <typename H, mode M>
void hash_none() {
  vp::raw<H> h;
  new (&h.v) H{};
  trip<H, M> t{h.v};
  vp_assert(t->size() == 0 && t->capacity_ == 0 && t->entries_ == nullptr && t->begin() == t->end(), "empty");
}
// --------------------------------------------------------------------------- pointers, real context
struct target {
  offset_t write(void const* p, std::size_t size, std::size_t align) {
    auto const at = m_.place(size, align);
    std::memcpy(m_.m_ + at, p, size);
    return static_cast<offset_t>(at);
  }
  template <typename T>
  void write(std::size_t pos, T const& v) {
    std::memcpy(m_.m_ + pos, &v, sizeof(T));
    ++writes_;
  }
  std::uint64_t checksum(offset_t) const { return 0; }
  memory m_;
  unsigned writes_{0};
};
enum known_as { NOTHING, UNKNOWN, LATE, OWNED };
template <mode M, known_as K>
void resolve() {
  target t;
  std::uint32_t x = 0, y = 0;
  serialization_context<target, M> c{t};
  auto const image = vp::any_size<std::int64_t>("image", 0, MAXB, 40);
  auto const pos = vp::any_size<std::int64_t>("pos", 0, MAXB, 40);
  if constexpr (K == OWNED) {
    c.offsets_[&x] = image;
  }
  std::uint32_t* const p = K == NOTHING ? nullptr : K == OWNED ? &x : &y;
  auto const ok = c.resolve_pointer(p, pos, K != LATE);
  vp_assert(ok == (K != LATE), "resolved or left for later");
  if (K != LATE) {
    vp_assert(load<std::int64_t, M>(t.m_, static_cast<std::uint64_t>(pos)) == (K == OWNED ? image - pos : NULLPTR_OFFSET), "distance to the image, or null");
  } else {
    vp_assert(t.writes_ == 0, "nothing written");
  }
  vp_assert(c.pending_.size() == (K == UNKNOWN ? 1 : 0), "remembered exactly when its image is not known yet");
  if constexpr (K == UNKNOWN) {
    vp_assert(c.pending_[0].origin_ptr_ == &y && c.pending_[0].pos_ == pos, "with its place");
  }
}

// -------------------------------------------------------------------------------------- pointers
template <typename U, mode M>
bool unique_image(memory const& m, std::uint64_t at, bool has, std::uint64_t start, std::uint32_t x) {
  auto const self = load<std::uint8_t, mode::NONE>(m, at + cista_member_offset(U, self_allocated_)) == 0;
  if (has) {
    return self && load<std::int64_t, M>(m, at) == static_cast<std::int64_t>(start - at) && load<std::uint32_t, M>(m, start) == x;
  }
  return self && load<std::int64_t, M>(m, at) == NULLPTR_OFFSET;
}
template <typename U, mode M>
void unique_out() {
  vp::raw<U> a;
  new (&a.v) U{};
  std::uint32_t x = vp::any<std::uint32_t>("x");
  auto const has = vp_fork(vp::any<bool>("has"));
  if (has) {
    a.v.el_ = &x;
    a.v.self_allocated_ = vp::any<bool>("owned");
  }
  somewhere<U> s;
  context<M> c{s.m_};
  auto const data = s.m_.n_;
  serialize(c, &a.v, static_cast<offset_t>(s.at_));
  s.untouched();
  vp_assert(unique_image<U, M>(s.m_, s.at_, has, s.m_.last_, x), "an image of the pointer and its object");
  if (has) {
    vp_assert(s.m_.last_ >= data && s.m_.last_ % 4 == 0 && s.m_.last_ + 4 <= s.m_.n_, "behind the data");
    vp_assert(c.offsets_.key_ == &x && static_cast<std::uint64_t>(c.offsets_.value_) == s.m_.last_, "the image is remembered for pointers to the object");
    a.v.self_allocated_ = false;
  }
}
template <typename U, mode M>
void unique_in() {
  somewhere<U> s;
  auto const has = vp_fork(vp::any<bool>("has"));
  auto const start = vp::any_size<std::uint64_t>("start", 0, MAXB, 40);
  vp_assume(start % 4 == 0 && start >= s.at_ + sizeof(U) && start + 4 <= s.m_.n_ && (s.k_ < start || s.k_ >= start + 4));
  auto const x = vp::any<std::uint32_t>("x");
#ifdef VP_NATIVE
  (void)x;
#else
  vp_assume(unique_image<U, M>(s.m_, s.at_, has, start, x));
#endif
  s.template accept<M>();
  s.untouched();
  if (has) {
    vp_assert(reinterpret_cast<std::uint8_t*>(s->get()) == s.m_.m_ + start, "the object is inside the data");
    vp_assert(*s->get() == x, "the same object");
    vp_assert(!s->self_allocated_, "not owned");
  } else {
    vp_assert(s->get() == nullptr, "no object");
  }
}
// a pointer to an object whose image is known
template <template <typename> typename P, mode M>
void pointer() {
  std::uint32_t x = 0;
  vp::raw<P<std::uint32_t>> a;
  new (&a.v) P<std::uint32_t>{nullptr};
  auto const has = vp_fork(vp::any<bool>("has"));
  if (has) {
    a.v = &x;
  }
  memory m;
  using T = P<std::uint32_t>;
  auto const at = vp::any_size<std::uint64_t>("at", 0, MAXB, 40);
  vp_assume(at % 8 == 0 && at <= m.n_ && 8 <= m.n_ - at);
  auto const image = vp::any_size<std::uint64_t>("image", 0, MAXB, 40);
  vp_assume(image % 4 == 0 && image <= m.n_ && 4 <= m.n_ - image);
  context<M> c{m};
  c.offsets_.key_ = &x;
  c.offsets_.value_ = static_cast<offset_t>(image);
  serialize(c, &a.v, static_cast<offset_t>(at));
  deserialization_context<M> const d{m.m_, m.m_ + m.n_};
  auto* const t = reinterpret_cast<T*>(m.m_ + at);
  auto thrown = false;
  try {
    deserialize(d, t);
  } catch (...) {
    thrown = true;
  }
  // the image of x must not be one byte before the pointer (that offset means null)
  vp_assert(!thrown, "accepted");
  if (vp_fork(!thrown)) {
    vp_assert(static_cast<std::uint32_t*>(*t) == (has ? reinterpret_cast<std::uint32_t*>(m.m_ + image) : nullptr), "denotes the image");
  }
}
}  // namespace

#define TRIP(NAME, F) \
  OBLIGATION(NAME) { F<mode::NONE>(); } \
  OBLIGATION(NAME##_be) { F<BE>(); }
#define TRIP1(NAME, F, T) \
  OBLIGATION(NAME) { F<T, mode::NONE>(); } \
  OBLIGATION(NAME##_be) { F<T, BE>(); }
TRIP1(scalar_u8, scalar, std::uint8_t)
TRIP1(scalar_u16, scalar, std::uint16_t)
TRIP1(scalar_u32, scalar, std::uint32_t)
TRIP1(scalar_i64, scalar, std::int64_t)
TRIP1(scalar_bool, scalar, bool)
TRIP1(scalar_enum, scalar, colour)
TRIP(structs, structs)
TRIP(pairs, pairs)
TRIP(std_pairs, std_pairs)
TRIP(tuples, tuples)
TRIP(bitsets, bitsets)
TRIP(optionals, optionals)
TRIP(variants, variants)
TRIP(durations, durations)
TRIP(strongs, strongs)
#define INOUT1(NAME, V, B) \
  OBLIGATION(NAME##_out_empty) { vector_out<V, B, EMPTY>(); } \
  OBLIGATION(NAME##_out_fields) { vector_out<V, B, FIELDS>(); } \
  OBLIGATION(NAME##_out_element) { vector_out<V, B, ELEMENT>(); } \
  OBLIGATION(NAME##_out_frame) { vector_out<V, B, FRAME>(); } \
  SYMBOLIC(NAME##_in_empty) { vector_in<V, B, EMPTY>(); } \
  SYMBOLIC(NAME##_in_fields) { vector_in<V, B, FIELDS>(); } \
  SYMBOLIC(NAME##_in_element) { vector_in<V, B, ELEMENT>(); } \
  SYMBOLIC(NAME##_in_frame) { vector_in<V, B, FRAME>(); } \
  NATIVE(NAME##_both) { vectors<V, B>(); }
#define INOUT(NAME, V) \
  INOUT1(NAME, V, mode::NONE) \
  INOUT1(NAME##_be, V, BE)
INOUT(vector_u8_off, o::vector<std::uint8_t>)
INOUT(vector_u32_off, o::vector<std::uint32_t>)
INOUT(vector_u64_off, o::vector<std::uint64_t>)
INOUT(vector_u32_raw, r::vector<std::uint32_t>)
INOUT(vector_u64_raw, r::vector<std::uint64_t>)
TRIP(indexed, indexed_vectors)
TRIP(bitvecs, bitvecs)
TRIP1(string_off, strings, o::string)
TRIP1(string_raw, strings, r::string)
TRIP1(u16string_off, strings, o::u16string)
TRIP1(cstring_off, cstrings, o::cstring)
TRIP1(unique_off_out, unique_out, o::unique_ptr<std::uint32_t>)
TRIP1(unique_raw_out, unique_out, r::unique_ptr<std::uint32_t>)
SYMBOLIC(unique_off_in) { unique_in<o::unique_ptr<std::uint32_t>, mode::NONE>(); }
SYMBOLIC(unique_raw_in) { unique_in<r::unique_ptr<std::uint32_t>, mode::NONE>(); }
SYMBOLIC(unique_off_in_be) { unique_in<o::unique_ptr<std::uint32_t>, BE>(); }
SYMBOLIC(unique_raw_in_be) { unique_in<r::unique_ptr<std::uint32_t>, BE>(); }
TRIP1(pointer_off, pointer, o::ptr)
TRIP1(pointer_raw, pointer, r::ptr)
#define RESOLVE(NAME, K) \
  OBLIGATION(resolve_##NAME) { resolve<mode::NONE, K>(); } \
  OBLIGATION(resolve_##NAME##_be) { resolve<BE, K>(); }
RESOLVE(null, NOTHING)
RESOLVE(unknown, UNKNOWN)
RESOLVE(late, LATE)
RESOLVE(owned, OWNED)
#define HASH(NAME, H) \
  NATIVE(hash_##NAME##_none) { hash_none<H, mode::NONE>(); } \
  NATIVE(hash_##NAME##_be_none) { hash_none<H, BE>(); }
HASH(off, o::hash_set<std::uint32_t>)
HASH(raw, r::hash_set<std::uint32_t>)
