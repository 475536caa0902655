// generated by gen_p10.py -- P10: reflection visits every member exactly once, in declaration order,
// for every supported member count.
#include "vp.h"

#include "cista/reflection/for_each_field.h"

using namespace cista;

namespace {

struct s1 { std::uint32_t m0; };
struct s14 { std::uint8_t m0; std::uint16_t m1; std::uint64_t m2; std::int64_t m3; std::int32_t m4; std::uint32_t m5; char m6; std::uint8_t m7; std::uint16_t m8; std::uint64_t m9; std::int64_t m10; std::int32_t m11; std::uint32_t m12; char m13; };
struct s17 { std::uint16_t m0; std::uint64_t m1; std::int64_t m2; std::int32_t m3; std::uint32_t m4; char m5; std::uint8_t m6; std::uint16_t m7; std::uint64_t m8; std::int64_t m9; std::int32_t m10; std::uint32_t m11; char m12; std::uint8_t m13; std::uint16_t m14; std::uint64_t m15; std::int64_t m16; };
struct s30 { std::int64_t m0; std::int32_t m1; std::uint32_t m2; char m3; std::uint8_t m4; std::uint16_t m5; std::uint64_t m6; std::int64_t m7; std::int32_t m8; std::uint32_t m9; char m10; std::uint8_t m11; std::uint16_t m12; std::uint64_t m13; std::int64_t m14; std::int32_t m15; std::uint32_t m16; char m17; std::uint8_t m18; std::uint16_t m19; std::uint64_t m20; std::int64_t m21; std::int32_t m22; std::uint32_t m23; char m24; std::uint8_t m25; std::uint16_t m26; std::uint64_t m27; std::int64_t m28; std::int32_t m29; };
struct s33 { std::int32_t m0; std::uint32_t m1; char m2; std::uint8_t m3; std::uint16_t m4; std::uint64_t m5; std::int64_t m6; std::int32_t m7; std::uint32_t m8; char m9; std::uint8_t m10; std::uint16_t m11; std::uint64_t m12; std::int64_t m13; std::int32_t m14; std::uint32_t m15; char m16; std::uint8_t m17; std::uint16_t m18; std::uint64_t m19; std::int64_t m20; std::int32_t m21; std::uint32_t m22; char m23; std::uint8_t m24; std::uint16_t m25; std::uint64_t m26; std::int64_t m27; std::int32_t m28; std::uint32_t m29; char m30; std::uint8_t m31; std::uint16_t m32; };
struct s46 { char m0; std::uint8_t m1; std::uint16_t m2; std::uint64_t m3; std::int64_t m4; std::int32_t m5; std::uint32_t m6; char m7; std::uint8_t m8; std::uint16_t m9; std::uint64_t m10; std::int64_t m11; std::int32_t m12; std::uint32_t m13; char m14; std::uint8_t m15; std::uint16_t m16; std::uint64_t m17; std::int64_t m18; std::int32_t m19; std::uint32_t m20; char m21; std::uint8_t m22; std::uint16_t m23; std::uint64_t m24; std::int64_t m25; std::int32_t m26; std::uint32_t m27; char m28; std::uint8_t m29; std::uint16_t m30; std::uint64_t m31; std::int64_t m32; std::int32_t m33; std::uint32_t m34; char m35; std::uint8_t m36; std::uint16_t m37; std::uint64_t m38; std::int64_t m39; std::int32_t m40; std::uint32_t m41; char m42; std::uint8_t m43; std::uint16_t m44; std::uint64_t m45; };
struct s49 { std::uint8_t m0; std::uint16_t m1; std::uint64_t m2; std::int64_t m3; std::int32_t m4; std::uint32_t m5; char m6; std::uint8_t m7; std::uint16_t m8; std::uint64_t m9; std::int64_t m10; std::int32_t m11; std::uint32_t m12; char m13; std::uint8_t m14; std::uint16_t m15; std::uint64_t m16; std::int64_t m17; std::int32_t m18; std::uint32_t m19; char m20; std::uint8_t m21; std::uint16_t m22; std::uint64_t m23; std::int64_t m24; std::int32_t m25; std::uint32_t m26; char m27; std::uint8_t m28; std::uint16_t m29; std::uint64_t m30; std::int64_t m31; std::int32_t m32; std::uint32_t m33; char m34; std::uint8_t m35; std::uint16_t m36; std::uint64_t m37; std::int64_t m38; std::int32_t m39; std::uint32_t m40; char m41; std::uint8_t m42; std::uint16_t m43; std::uint64_t m44; std::int64_t m45; std::int32_t m46; std::uint32_t m47; char m48; };
struct s62 { std::uint64_t m0; std::int64_t m1; std::int32_t m2; std::uint32_t m3; char m4; std::uint8_t m5; std::uint16_t m6; std::uint64_t m7; std::int64_t m8; std::int32_t m9; std::uint32_t m10; char m11; std::uint8_t m12; std::uint16_t m13; std::uint64_t m14; std::int64_t m15; std::int32_t m16; std::uint32_t m17; char m18; std::uint8_t m19; std::uint16_t m20; std::uint64_t m21; std::int64_t m22; std::int32_t m23; std::uint32_t m24; char m25; std::uint8_t m26; std::uint16_t m27; std::uint64_t m28; std::int64_t m29; std::int32_t m30; std::uint32_t m31; char m32; std::uint8_t m33; std::uint16_t m34; std::uint64_t m35; std::int64_t m36; std::int32_t m37; std::uint32_t m38; char m39; std::uint8_t m40; std::uint16_t m41; std::uint64_t m42; std::int64_t m43; std::int32_t m44; std::uint32_t m45; char m46; std::uint8_t m47; std::uint16_t m48; std::uint64_t m49; std::int64_t m50; std::int32_t m51; std::uint32_t m52; char m53; std::uint8_t m54; std::uint16_t m55; std::uint64_t m56; std::int64_t m57; std::int32_t m58; std::uint32_t m59; char m60; std::uint8_t m61; };

// the members of t are exactly these addresses, in this order
template <typename T, std::size_t N>
void members(T& t, void const* const (&at)[N]) {
  static_assert(arity<T>() == N - 1, "member count");
  std::size_t i = 0;
  for_each_field(t, [&](auto&& m) {
    vp_assert(i < N - 1 && static_cast<void const*>(&m) == at[i], "every field once, in declaration order");
    ++i;
  });
  vp_assert(i == N - 1, "all fields are visited");
  i = 0;
  for_each_ptr_field(t, [&](auto&& m) {
    vp_assert(i < N - 1 && static_cast<void const*>(m) == at[i], "every field pointer once, in declaration order");
    ++i;
  });
  vp_assert(i == N - 1, "all field pointers are visited");
  i = 0;
  for_each_field(static_cast<T const&>(t), [&](auto&& m) {
    vp_assert(i < N - 1 && static_cast<void const*>(&m) == at[i], "every field of a const object");
    ++i;
  });
  vp_assert(i == N - 1, "all fields of a const object are visited");
}

}  // namespace

OBLIGATION(reflect_1) { s1 t{}; void const* const at[] = {&t.m0, nullptr}; members(t, at); }
OBLIGATION(reflect_14) { s14 t{}; void const* const at[] = {&t.m0, &t.m1, &t.m2, &t.m3, &t.m4, &t.m5, &t.m6, &t.m7, &t.m8, &t.m9, &t.m10, &t.m11, &t.m12, &t.m13, nullptr}; members(t, at); }
OBLIGATION(reflect_17) { s17 t{}; void const* const at[] = {&t.m0, &t.m1, &t.m2, &t.m3, &t.m4, &t.m5, &t.m6, &t.m7, &t.m8, &t.m9, &t.m10, &t.m11, &t.m12, &t.m13, &t.m14, &t.m15, &t.m16, nullptr}; members(t, at); }
OBLIGATION(reflect_30) { s30 t{}; void const* const at[] = {&t.m0, &t.m1, &t.m2, &t.m3, &t.m4, &t.m5, &t.m6, &t.m7, &t.m8, &t.m9, &t.m10, &t.m11, &t.m12, &t.m13, &t.m14, &t.m15, &t.m16, &t.m17, &t.m18, &t.m19, &t.m20, &t.m21, &t.m22, &t.m23, &t.m24, &t.m25, &t.m26, &t.m27, &t.m28, &t.m29, nullptr}; members(t, at); }
OBLIGATION(reflect_33) { s33 t{}; void const* const at[] = {&t.m0, &t.m1, &t.m2, &t.m3, &t.m4, &t.m5, &t.m6, &t.m7, &t.m8, &t.m9, &t.m10, &t.m11, &t.m12, &t.m13, &t.m14, &t.m15, &t.m16, &t.m17, &t.m18, &t.m19, &t.m20, &t.m21, &t.m22, &t.m23, &t.m24, &t.m25, &t.m26, &t.m27, &t.m28, &t.m29, &t.m30, &t.m31, &t.m32, nullptr}; members(t, at); }
OBLIGATION(reflect_46) { s46 t{}; void const* const at[] = {&t.m0, &t.m1, &t.m2, &t.m3, &t.m4, &t.m5, &t.m6, &t.m7, &t.m8, &t.m9, &t.m10, &t.m11, &t.m12, &t.m13, &t.m14, &t.m15, &t.m16, &t.m17, &t.m18, &t.m19, &t.m20, &t.m21, &t.m22, &t.m23, &t.m24, &t.m25, &t.m26, &t.m27, &t.m28, &t.m29, &t.m30, &t.m31, &t.m32, &t.m33, &t.m34, &t.m35, &t.m36, &t.m37, &t.m38, &t.m39, &t.m40, &t.m41, &t.m42, &t.m43, &t.m44, &t.m45, nullptr}; members(t, at); }
OBLIGATION(reflect_49) { s49 t{}; void const* const at[] = {&t.m0, &t.m1, &t.m2, &t.m3, &t.m4, &t.m5, &t.m6, &t.m7, &t.m8, &t.m9, &t.m10, &t.m11, &t.m12, &t.m13, &t.m14, &t.m15, &t.m16, &t.m17, &t.m18, &t.m19, &t.m20, &t.m21, &t.m22, &t.m23, &t.m24, &t.m25, &t.m26, &t.m27, &t.m28, &t.m29, &t.m30, &t.m31, &t.m32, &t.m33, &t.m34, &t.m35, &t.m36, &t.m37, &t.m38, &t.m39, &t.m40, &t.m41, &t.m42, &t.m43, &t.m44, &t.m45, &t.m46, &t.m47, &t.m48, nullptr}; members(t, at); }
OBLIGATION(reflect_62) { s62 t{}; void const* const at[] = {&t.m0, &t.m1, &t.m2, &t.m3, &t.m4, &t.m5, &t.m6, &t.m7, &t.m8, &t.m9, &t.m10, &t.m11, &t.m12, &t.m13, &t.m14, &t.m15, &t.m16, &t.m17, &t.m18, &t.m19, &t.m20, &t.m21, &t.m22, &t.m23, &t.m24, &t.m25, &t.m26, &t.m27, &t.m28, &t.m29, &t.m30, &t.m31, &t.m32, &t.m33, &t.m34, &t.m35, &t.m36, &t.m37, &t.m38, &t.m39, &t.m40, &t.m41, &t.m42, &t.m43, &t.m44, &t.m45, &t.m46, &t.m47, &t.m48, &t.m49, &t.m50, &t.m51, &t.m52, &t.m53, &t.m54, &t.m55, &t.m56, &t.m57, &t.m58, &t.m59, &t.m60, &t.m61, nullptr}; members(t, at); }
