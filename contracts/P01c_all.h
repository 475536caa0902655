// P01, bounded companion: generated values of rich types, in every mode and both flavours, are
// serialised, deserialised, compared member by member with the original and, in the offset flavour,
// compared again after their bytes were copied elsewhere.
#pragma once
#include "vp.h"

#include <chrono>
#include <string>
#include <vector>

#include "cista/containers.h"
#include "cista/containers/mutable_fws_multimap.h"
#include "cista/serialization.h"

using namespace cista;

namespace {
// texts that outlive the values that refer to them
inline std::string_view keep(std::string const& s) {
  static char b[64];
  std::memcpy(b, s.c_str(), s.size() + 1);
  return {b, s.size()};
}
template <typename T, std::enable_if_t<std::is_scalar_v<T>, int> = 0>
void same(T a, T b) {
  vp_assert(a == b, "same number");
}
template <typename P>
void same(generic_string<P> const& a, generic_string<P> const& b) {
  vp_assert(a.size() == b.size() && std::memcmp(a.data(), b.data(), a.size() * sizeof(typename generic_string<P>::CharT)) == 0, "same text");
}
template <typename T, template <typename> typename P, bool I, typename S>
void same(basic_vector<T, P, I, S> const& a, basic_vector<T, P, I, S> const& b) {
  vp_assert(a.size() == b.size(), "same size");
  for (S i = 0; i != a.size(); ++i) {
    same(a[i], b[i]);
  }
}
template <typename T>
void buckets(T const& a, T const& b) {
  vp_assert(a.size() == b.size(), "same number of buckets");
  for (unsigned i = 0; i != a.size(); ++i) {
    auto const x = a[i], y = b[i];
    vp_assert(x.size() == y.size(), "same size of the bucket");
    for (unsigned j = 0; j != x.size(); ++j) {
      vp_assert(x[j] == y[j], "same element of the bucket");
    }
  }
}
#define FLAVOUR offset
#define of_FLAVOUR of_offset
#include "P01c_body.h"
#undef FLAVOUR
#undef of_FLAVOUR
#define FLAVOUR raw
#define of_FLAVOUR of_raw
#include "P01c_body.h"
#undef FLAVOUR
#undef of_FLAVOUR
constexpr auto BE = mode::SERIALIZE_BIG_ENDIAN, V = mode::WITH_VERSION, SV = mode::WITH_STATIC_VERSION, I = mode::WITH_INTEGRITY, D = mode::DEEP_CHECK;
}  // namespace
#define PLAIN_offset(T) \
  NATIVE(offset_##T) { of_offset::whole<of_offset::T, mode::NONE>(); } \
  NATIVE(offset_##T##_i) { of_offset::whole<of_offset::T, I>(); } \
  NATIVE(offset_##T##_ibe) { of_offset::whole<of_offset::T, I | BE>(); } \
  NATIVE(offset_##T##_skipi) { of_offset::whole<of_offset::T, I, mode::SKIP_INTEGRITY>(); } \
  NATIVE(offset_##T##_unchecked) { of_offset::whole<of_offset::T, mode::NONE, mode::UNCHECKED>(); }
#define PLAIN_raw(T) \
  NATIVE(raw_##T) { of_raw::whole<of_raw::T, mode::NONE>(); } \
  NATIVE(raw_##T##_ibe) { of_raw::whole<of_raw::T, I | BE>(); } \
  NATIVE(raw_##T##_unchecked) { of_raw::whole<of_raw::T, mode::NONE, mode::UNCHECKED>(); }
#define HASHED_offset_1(T) \
  NATIVE(offset_##T##_v) { of_offset::whole<of_offset::T, V>(); } \
  NATIVE(offset_##T##_vi) { of_offset::whole<of_offset::T, V | I>(); } \
  NATIVE(offset_##T##_svi) { of_offset::whole<of_offset::T, SV | I>(); } \
  NATIVE(offset_##T##_skip) { of_offset::whole<of_offset::T, V | I, mode::SKIP_VERSION | mode::SKIP_INTEGRITY>(); }
#define HASHED_offset_2(T) \
  NATIVE(offset_##T##_be) { of_offset::whole<of_offset::T, BE>(); } \
  NATIVE(offset_##T##_vibe) { of_offset::whole<of_offset::T, V | I | BE>(); } \
  NATIVE(offset_##T##_deep) { of_offset::whole<of_offset::T, D>(); }
#define HASHED_raw(T) \
  NATIVE(raw_##T##_vi) { of_raw::whole<of_raw::T, V | I>(); } \
  NATIVE(raw_##T##_be) { of_raw::whole<of_raw::T, BE>(); } \
  NATIVE(raw_##T##_vibe) { of_raw::whole<of_raw::T, V | I | BE>(); } \
  NATIVE(raw_##T##_deep) { of_raw::whole<of_raw::T, D>(); }
