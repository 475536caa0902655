// P01, composition: containers of building blocks.  Serialising and deserialising a building block are
// replaced by their contracts, proved in P01.cc at an arbitrary place: serialising leaves an image of
// the block exactly where it was told to, appends to the data and changes nothing else; deserialising
// an image yields the block.  What is left to prove here is that each part is serialised to the place
// its bytes went to, and deserialised from the same place.
#include "ser.h"

namespace {
std::uint64_t* g_source;  // by position: the object whose image is there
std::uint8_t* g_loaded;   // by position: was the image there deserialised
std::uint64_t g_base, g_end;
using str = o::string;
using vec = o::vector<std::uint32_t>;
using uni = o::unique_ptr<std::uint32_t>;
#ifndef VP_NATIVE
template <typename T>
void out(T const* el, std::int64_t pos) {
  g_source[static_cast<std::uint64_t>(pos)] = reinterpret_cast<std::uint64_t>(el);
}
template <typename T>
void in(T* el) {
  auto const at = reinterpret_cast<std::uint64_t>(el);
  vp_assert(at >= g_base && at - g_base <= g_end && at % alignof(T) == 0, "a part inside the data");
  g_loaded[at - g_base] = 1;
}
#endif
struct mixed {
  std::uint32_t a_;
  str s_;
  vec v_;
  uni u_;
};
struct nested {
  mixed m_;
  std::uint8_t b_;
  str s_;
};
struct own {
  auto cista_members() { return std::tie(s_, v_); }
  auto cista_members() const { return std::tie(s_, v_); }
  str s_;
  std::uint32_t skipped_;
  vec v_;
};
}  // namespace
#ifndef VP_NATIVE
extern "C" void vpc_out_str(void*, str const* el, std::int64_t pos) { out(el, pos); }
extern "C" void vpc_out_vec(void*, vec const* el, std::int64_t pos) { out(el, pos); }
extern "C" void vpc_out_uni(void*, uni const* el, std::int64_t pos) { out(el, pos); }
extern "C" void vpc_in_str(void const*, str* el) { in(el); }
extern "C" void vpc_in_vec(void const*, vec* el) { in(el); }
extern "C" void vpc_in_uni(void const*, uni* el) { in(el); }
namespace {
template <typename T, mode M>
struct trip {
  explicit trip(T const& v) {
    g_source = static_cast<std::uint64_t*>(vp_any_mem(m_.cap_ * 8, 8, 16, "sources"));
    g_loaded = static_cast<std::uint8_t*>(vp_any_mem(m_.cap_, 1, 16, "loaded"));
    vp::each(g_loaded, [](std::uint64_t, std::uint64_t x) { return x == 0; });
    at_ = vp::any_size<std::uint64_t>("at", 0, MAXB, 40);
    vp_assume(at_ % alignof(T) == 0 && at_ <= m_.n_ && sizeof(T) <= m_.n_ - at_);
    std::memcpy(static_cast<void*>(m_.m_ + at_), static_cast<void const*>(&v), sizeof(T));
    context<M> c{m_};
    serialize(c, &v, static_cast<offset_t>(at_));
    g_base = reinterpret_cast<std::uint64_t>(m_.m_);
    g_end = m_.n_;
    deserialization_context<M> const d{m_.m_, m_.m_ + m_.n_};
    auto thrown = false;
    try {
      deserialize(d, reinterpret_cast<T*>(m_.m_ + at_));
    } catch (...) {
      thrown = true;
    }
    vp_assert(!thrown, "a serialised value is accepted");
    if (vp_fork(thrown)) {
      vp_assume(false);
    }
  }
  T const* operator->() const { return reinterpret_cast<T const*>(m_.m_ + at_); }
  template <typename P>
  void part(P const& original, P const& loaded) const {
    auto const at = reinterpret_cast<std::uint64_t>(&loaded) - g_base;
    vp_assert(g_source[at] == reinterpret_cast<std::uint64_t>(&original), "the part was serialised to its place");
    vp_assert(g_loaded[at] == 1, "the part was deserialised");
  }
  memory m_;
  std::uint64_t at_;
};
template <typename T>
struct hold {
  hold() { new (&r_.v) T{}; }
  T& operator*() { return r_.v; }
  T* operator->() { return &r_.v; }
  vp::raw<T> r_;
};
void parts(trip<mixed, mode::NONE> const& t, mixed const& a, mixed const& b) {
  vp_assert(a.a_ == b.a_, "the same number");
  t.part(a.s_, b.s_);
  t.part(a.v_, b.v_);
  t.part(a.u_, b.u_);
}
template <mode M>
void structs() {
  hold<mixed> v;
  v->a_ = vp::any<std::uint32_t>("a");
  trip<mixed, M> t{*v};
  vp_assert(v->a_ == t->a_, "the same number");
  t.part(v->s_, t->s_);
  t.part(v->v_, t->v_);
  t.part(v->u_, t->u_);
}
template <mode M>
void nesteds() {
  hold<nested> v;
  v->m_.a_ = vp::any<std::uint32_t>("a");
  v->b_ = vp::any<std::uint8_t>("b");
  trip<nested, M> t{*v};
  vp_assert(v->m_.a_ == t->m_.a_ && v->b_ == t->b_, "the same numbers");
  t.part(v->m_.s_, t->m_.s_);
  t.part(v->m_.v_, t->m_.v_);
  t.part(v->m_.u_, t->m_.u_);
  t.part(v->s_, t->s_);
}
template <mode M>
void members() {
  hold<own> v;
  trip<own, M> t{*v};
  t.part(v->s_, t->s_);
  t.part(v->v_, t->v_);
}
template <typename P, mode M>
void pairs() {
  hold<P> v;
  trip<P, M> t{*v};
  t.part(v->first, t->first);
  t.part(v->second, t->second);
}
template <mode M>
void tuples() {
  using T = cista::tuple<uni, std::uint32_t, str>;
  hold<T> v;
  get<1>(*v) = vp::any<std::uint32_t>("n");
  trip<T, M> t{*v};
  vp_assert(get<1>(*v) == get<1>(*t.operator->()), "the same number");
  t.part(get<0>(*v), get<0>(*t.operator->()));
  t.part(get<2>(*v), get<2>(*t.operator->()));
}
template <mode M>
void arrays() {
  using T = cista::array<str, 3>;
  hold<T> v;
  trip<T, M> t{*v};
  for (unsigned i = 0; i != 3; ++i) {
    t.part((*v)[i], (*t.operator->())[i]);
  }
}
template <mode M>
void optionals() {
  using T = cista::optional<str>;
  hold<T> v;
  auto const has = vp_fork(vp::any<bool>("has"));
  if (has) {
    v->valid_ = true;
    new (&v->storage_[0]) str{};
  }
  trip<T, M> t{*v};
  vp_assert(t->has_value() == has, "engaged or not");
  if (has) {
    t.part(**v, t->value());
  }
}
template <mode M>
void variants() {
  using T = cista::variant<std::uint32_t, str, vec>;
  hold<T> v;
  auto const k = vp::any_in<unsigned>("which", 0, 2);
  v->idx_ = static_cast<decltype(v->idx_)>(k);
  if (vp_fork(k == 1)) {
    new (&v->storage_) str{};
    trip<T, M> t{*v};
    vp_assert(t->index() == 1, "the same alternative");
    t.part(cista::get<str>(*v), cista::get<str>(*t.operator->()));
  } else if (vp_fork(k == 2)) {
    new (&v->storage_) vec{};
    trip<T, M> t{*v};
    vp_assert(t->index() == 2, "the same alternative");
    t.part(cista::get<vec>(*v), cista::get<vec>(*t.operator->()));
  }
}
// vectors of blocks: the fields are as in P01.cc; each element
template <typename P, mode M>
void vectors() {
  using V = o::vector<P>;
  hold<V> v;
  auto const n = vp::any_in<std::uint32_t>("size", 1, 1U << 30);
  v->el_ = static_cast<P*>(vp_any_mem(std::uint64_t{n} * sizeof(P), 8, 16, "elements"));
  v->used_size_ = v->allocated_size_ = n;
  memory m;
  g_source = static_cast<std::uint64_t*>(vp_any_mem(m.cap_ * 8, 8, 16, "sources"));
  auto const at = vp::any_size<std::uint64_t>("at", 0, MAXB, 40);
  vp_assume(at % 8 == 0 && at <= m.n_ && sizeof(V) <= m.n_ - at);
  context<M> c{m};
  serialize(c, &*v, static_cast<offset_t>(at));
  auto const i = vp::index("i");
  if (vp_fork(i < n)) {
    vp_assert(g_source[m.last_ + i * sizeof(P)] == reinterpret_cast<std::uint64_t>(static_cast<P const*>(v->el_) + i), "the element was serialised to its place");
  }
}
template <typename P, mode M>
void owned() {
  using U = o::unique_ptr<P>;
  hold<P> x;
  hold<U> v;
  v->el_ = &*x;
  memory m;
  g_source = static_cast<std::uint64_t*>(vp_any_mem(m.cap_ * 8, 8, 16, "sources"));
  auto const at = vp::any_size<std::uint64_t>("at", 0, MAXB, 40);
  vp_assume(at % 8 == 0 && at <= m.n_ && sizeof(U) <= m.n_ - at);
  context<M> c{m};
  serialize(c, &*v, static_cast<offset_t>(at));
  vp_assert(g_source[m.last_] == reinterpret_cast<std::uint64_t>(&*x), "the object was serialised to its place");
}
}  // namespace
#endif
#define TRIP(NAME, ...) \
  SYMBOLIC(NAME) { __VA_ARGS__ mode::NONE>(); } \
  SYMBOLIC(NAME##_be) { __VA_ARGS__ mode::SERIALIZE_BIG_ENDIAN>(); }
#ifndef VP_NATIVE
#define COMMA ,
TRIP(parts_struct, structs<)
TRIP(parts_nested, nesteds<)
TRIP(parts_members, members<)
TRIP(parts_pair, pairs<cista::pair<uni COMMA str> COMMA)
TRIP(parts_std_pair, pairs<std::pair<uni COMMA str> COMMA)
TRIP(parts_tuple, tuples<)
TRIP(parts_array, arrays<)
TRIP(parts_optional, optionals<)
TRIP(parts_variant, variants<)
TRIP(parts_vector_string, vectors<str COMMA)
TRIP(parts_vector_vector, vectors<vec COMMA)
TRIP(parts_vector_unique, vectors<uni COMMA)
TRIP(parts_unique_string, owned<str COMMA)
#endif
