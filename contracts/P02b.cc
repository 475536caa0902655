// P02, composition: structs, pairs, tuples, optionals, variants, arrays and vectors of the building
// blocks.  Deserialising a building block is replaced by its contract, proved in P02.cc at an
// arbitrary position: it throws, or the object lies inside the buffer and was accepted (marked).
#include "deser.h"

namespace {
std::uint64_t g_begin, g_end;
std::uint8_t* g_marks;
#ifndef VP_NATIVE
template <typename T>
void block(T* el) {
  auto const at = reinterpret_cast<std::uint64_t>(el);
  if (at < g_begin || at > g_end || g_end - at < sizeof(T) || at % alignof(T) != 0 || vp::any<bool>("rejected")) {
    throw cista_exception{""};
  }
  g_marks[at - g_begin] = 1;
}
#endif
struct marked : input {
  marked() {
    g_marks = static_cast<std::uint8_t*>(vp_any_mem(n_, 1, 16, "marks"));
    g_begin = begin();
    g_end = begin() + n_;
#ifndef VP_NATIVE
    vp::each(g_marks, [](std::uint64_t, std::uint64_t v) { return v == 0; });
#endif
  }
};
// deserialising reached this building block
template <typename T>
void reached(marked const& in, T const* el) {
  auto const at = reinterpret_cast<std::uint64_t>(el);
  vp_assert(in.inside(at, sizeof(T), alignof(T)), "the part lies inside the buffer");
#ifdef VP_NATIVE
  accepted(in, *el);
#else
  vp_assert(g_marks[at - g_begin] == 1, "the part was checked");
#endif
}
using str = o::string;
using vec = o::vector<std::uint32_t>;
using uni = o::unique_ptr<std::uint32_t>;
using ptr32 = o::ptr<std::uint32_t>;
}  // namespace
#ifndef VP_NATIVE
extern "C" void vpc_string(void const*, str* el) { block(el); }
extern "C" void vpc_vec(void const*, vec* el) { block(el); }
extern "C" void vpc_uni(void const*, uni* el) { block(el); }
extern "C" void vpc_ptr(void const*, ptr32* el) { block(el); }
#endif
namespace {
template <typename T>
constexpr bool is_vector = false;
template <typename T, template <typename> typename P, bool I, typename S>
constexpr bool is_vector<basic_vector<T, P, I, S>> = true;
template <typename T, typename F>
void composed(F const& look) {
  marked in;
  auto const pos = is_vector<T> ? 0 : vp::any_size<std::uint64_t>("pos", 0, 2 * MAXB, 220);
  auto* p = reinterpret_cast<T*>(in.b_ + pos);
  deserialization_context<mode::NONE> const c{in.b_, in.b_ + in.n_};
  auto thrown = false;
  try {
    deserialize(c, p);
  } catch (...) {
    thrown = true;
  }
  if (vp_fork(!thrown)) {
    in_buffer(in, p);
    look(in, *p);
  }
}
template <typename V>
void elements(marked const& in, V const& v) {
  accepted(in, v);
  auto const i = vp::index("i");
  if (vp_fork(i < v.used_size_)) {
    reached(in, reinterpret_cast<typename V::value_type const*>(where(v.el_)) + i);
  }
}
struct mixed {
  std::uint32_t a_;
  str s_;
  vec v_;
  uni u_;
  ptr32 p_;
};
struct nested {
  mixed m_;
  std::uint8_t b_;
  str s_;
};
struct own {
  auto cista_members() { return std::tie(s_, v_); }
  str s_;
  std::uint32_t skipped_;
  vec v_;
};
void all_of(marked const& in, mixed const& m) {
  reached(in, &m.s_);
  reached(in, &m.v_);
  reached(in, &m.u_);
  reached(in, &m.p_);
}
}  // namespace
#define COMPOSED(NAME, ...) OBLIGATION(composed_##NAME) { using T = __VA_ARGS__; composed<T>([](marked const& in, T const& v)
#define END ); }
COMPOSED(struct, mixed) { all_of(in, v); } END
COMPOSED(struct_nested, nested) { all_of(in, v.m_); reached(in, &v.s_); } END
COMPOSED(struct_members, own) { reached(in, &v.s_); reached(in, &v.v_); } END
COMPOSED(pair, pair<uni, str>) { reached(in, &v.first); reached(in, &v.second); } END
COMPOSED(std_pair, std::pair<uni, str>) { reached(in, &v.first); reached(in, &v.second); } END
COMPOSED(tuple, tuple<uni, std::uint32_t, str>) { reached(in, &get<0>(v)); reached(in, &get<2>(v)); } END
COMPOSED(array, array<str, 3>) {
  auto const i = vp::any_in<unsigned>("i", 0, 2);
  reached(in, &v[i]);
} END
COMPOSED(optional, optional<str>) {
  accepted(in, v);
  if (vp_fork(*reinterpret_cast<std::uint8_t const*>(&v.valid_) == 1)) { reached(in, reinterpret_cast<str const*>(&v.storage_[0])); }
} END
COMPOSED(variant, variant<std::uint32_t, str, vec>) {
  accepted(in, v);
  if (vp_fork(v.idx_ == 1)) { reached(in, reinterpret_cast<str const*>(&v.storage_)); }
  else if (vp_fork(v.idx_ == 2)) { reached(in, reinterpret_cast<vec const*>(&v.storage_)); }
} END
COMPOSED(vector_string, o::vector<str>) { elements(in, v); } END
COMPOSED(vector_vector, o::vector<vec>) { elements(in, v); } END
COMPOSED(vector_unique, o::vector<uni>) { elements(in, v); } END
COMPOSED(vector_ptr, o::vector<ptr32>) { elements(in, v); } END
COMPOSED(unique_string, o::unique_ptr<str>) {
  accepted(in, v);
  if (vp_fork(where(v.el_) != 0)) { reached(in, reinterpret_cast<str const*>(where(v.el_))); }
} END
COMPOSED(unique_mixed, o::unique_ptr<mixed>) {
  accepted(in, v);
  if (vp_fork(where(v.el_) != 0)) { all_of(in, *reinterpret_cast<mixed const*>(where(v.el_))); }
} END
