// generated by gen_p10.py -- P10: reflection visits every member exactly once, in declaration order,
// for every supported member count.
#include "vp.h"

#include "cista/reflection/for_each_field.h"

using namespace cista;

namespace {

struct s4 { char m0; std::uint8_t m1; std::uint16_t m2; std::uint64_t m3; };
struct s11 { char m0; std::uint8_t m1; std::uint16_t m2; std::uint64_t m3; std::int64_t m4; std::int32_t m5; std::uint32_t m6; char m7; std::uint8_t m8; std::uint16_t m9; std::uint64_t m10; };
struct s20 { std::uint64_t m0; std::int64_t m1; std::int32_t m2; std::uint32_t m3; char m4; std::uint8_t m5; std::uint16_t m6; std::uint64_t m7; std::int64_t m8; std::int32_t m9; std::uint32_t m10; char m11; std::uint8_t m12; std::uint16_t m13; std::uint64_t m14; std::int64_t m15; std::int32_t m16; std::uint32_t m17; char m18; std::uint8_t m19; };
struct s27 { std::uint64_t m0; std::int64_t m1; std::int32_t m2; std::uint32_t m3; char m4; std::uint8_t m5; std::uint16_t m6; std::uint64_t m7; std::int64_t m8; std::int32_t m9; std::uint32_t m10; char m11; std::uint8_t m12; std::uint16_t m13; std::uint64_t m14; std::int64_t m15; std::int32_t m16; std::uint32_t m17; char m18; std::uint8_t m19; std::uint16_t m20; std::uint64_t m21; std::int64_t m22; std::int32_t m23; std::uint32_t m24; char m25; std::uint8_t m26; };
struct s36 { std::uint32_t m0; char m1; std::uint8_t m2; std::uint16_t m3; std::uint64_t m4; std::int64_t m5; std::int32_t m6; std::uint32_t m7; char m8; std::uint8_t m9; std::uint16_t m10; std::uint64_t m11; std::int64_t m12; std::int32_t m13; std::uint32_t m14; char m15; std::uint8_t m16; std::uint16_t m17; std::uint64_t m18; std::int64_t m19; std::int32_t m20; std::uint32_t m21; char m22; std::uint8_t m23; std::uint16_t m24; std::uint64_t m25; std::int64_t m26; std::int32_t m27; std::uint32_t m28; char m29; std::uint8_t m30; std::uint16_t m31; std::uint64_t m32; std::int64_t m33; std::int32_t m34; std::uint32_t m35; };
struct s43 { std::uint32_t m0; char m1; std::uint8_t m2; std::uint16_t m3; std::uint64_t m4; std::int64_t m5; std::int32_t m6; std::uint32_t m7; char m8; std::uint8_t m9; std::uint16_t m10; std::uint64_t m11; std::int64_t m12; std::int32_t m13; std::uint32_t m14; char m15; std::uint8_t m16; std::uint16_t m17; std::uint64_t m18; std::int64_t m19; std::int32_t m20; std::uint32_t m21; char m22; std::uint8_t m23; std::uint16_t m24; std::uint64_t m25; std::int64_t m26; std::int32_t m27; std::uint32_t m28; char m29; std::uint8_t m30; std::uint16_t m31; std::uint64_t m32; std::int64_t m33; std::int32_t m34; std::uint32_t m35; char m36; std::uint8_t m37; std::uint16_t m38; std::uint64_t m39; std::int64_t m40; std::int32_t m41; std::uint32_t m42; };
struct s52 { std::uint16_t m0; std::uint64_t m1; std::int64_t m2; std::int32_t m3; std::uint32_t m4; char m5; std::uint8_t m6; std::uint16_t m7; std::uint64_t m8; std::int64_t m9; std::int32_t m10; std::uint32_t m11; char m12; std::uint8_t m13; std::uint16_t m14; std::uint64_t m15; std::int64_t m16; std::int32_t m17; std::uint32_t m18; char m19; std::uint8_t m20; std::uint16_t m21; std::uint64_t m22; std::int64_t m23; std::int32_t m24; std::uint32_t m25; char m26; std::uint8_t m27; std::uint16_t m28; std::uint64_t m29; std::int64_t m30; std::int32_t m31; std::uint32_t m32; char m33; std::uint8_t m34; std::uint16_t m35; std::uint64_t m36; std::int64_t m37; std::int32_t m38; std::uint32_t m39; char m40; std::uint8_t m41; std::uint16_t m42; std::uint64_t m43; std::int64_t m44; std::int32_t m45; std::uint32_t m46; char m47; std::uint8_t m48; std::uint16_t m49; std::uint64_t m50; std::int64_t m51; };
struct s59 { std::uint16_t m0; std::uint64_t m1; std::int64_t m2; std::int32_t m3; std::uint32_t m4; char m5; std::uint8_t m6; std::uint16_t m7; std::uint64_t m8; std::int64_t m9; std::int32_t m10; std::uint32_t m11; char m12; std::uint8_t m13; std::uint16_t m14; std::uint64_t m15; std::int64_t m16; std::int32_t m17; std::uint32_t m18; char m19; std::uint8_t m20; std::uint16_t m21; std::uint64_t m22; std::int64_t m23; std::int32_t m24; std::uint32_t m25; char m26; std::uint8_t m27; std::uint16_t m28; std::uint64_t m29; std::int64_t m30; std::int32_t m31; std::uint32_t m32; char m33; std::uint8_t m34; std::uint16_t m35; std::uint64_t m36; std::int64_t m37; std::int32_t m38; std::uint32_t m39; char m40; std::uint8_t m41; std::uint16_t m42; std::uint64_t m43; std::int64_t m44; std::int32_t m45; std::uint32_t m46; char m47; std::uint8_t m48; std::uint16_t m49; std::uint64_t m50; std::int64_t m51; std::int32_t m52; std::uint32_t m53; char m54; std::uint8_t m55; std::uint16_t m56; std::uint64_t m57; std::int64_t m58; };

// the members of t are exactly these addresses, in this order
template <typename T, std::size_t N>
void members(T& t, void const* const (&at)[N]) {
  static_assert(arity<T>() == N - 1, "member count");
  std::size_t i = 0;
  for_each_field(t, [&](auto&& m) {
    vp_assert(i < N - 1 && static_cast<void const*>(&m) == at[i], "every field once, in declaration order");
    ++i;
  });
  vp_assert(i == N - 1, "all fields are visited");
  i = 0;
  for_each_ptr_field(t, [&](auto&& m) {
    vp_assert(i < N - 1 && static_cast<void const*>(m) == at[i], "every field pointer once, in declaration order");
    ++i;
  });
  vp_assert(i == N - 1, "all field pointers are visited");
  i = 0;
  for_each_field(static_cast<T const&>(t), [&](auto&& m) {
    vp_assert(i < N - 1 && static_cast<void const*>(&m) == at[i], "every field of a const object");
    ++i;
  });
  vp_assert(i == N - 1, "all fields of a const object are visited");
}

}  // namespace

OBLIGATION(reflect_4) { s4 t{}; void const* const at[] = {&t.m0, &t.m1, &t.m2, &t.m3, nullptr}; members(t, at); }
OBLIGATION(reflect_11) { s11 t{}; void const* const at[] = {&t.m0, &t.m1, &t.m2, &t.m3, &t.m4, &t.m5, &t.m6, &t.m7, &t.m8, &t.m9, &t.m10, nullptr}; members(t, at); }
OBLIGATION(reflect_20) { s20 t{}; void const* const at[] = {&t.m0, &t.m1, &t.m2, &t.m3, &t.m4, &t.m5, &t.m6, &t.m7, &t.m8, &t.m9, &t.m10, &t.m11, &t.m12, &t.m13, &t.m14, &t.m15, &t.m16, &t.m17, &t.m18, &t.m19, nullptr}; members(t, at); }
OBLIGATION(reflect_27) { s27 t{}; void const* const at[] = {&t.m0, &t.m1, &t.m2, &t.m3, &t.m4, &t.m5, &t.m6, &t.m7, &t.m8, &t.m9, &t.m10, &t.m11, &t.m12, &t.m13, &t.m14, &t.m15, &t.m16, &t.m17, &t.m18, &t.m19, &t.m20, &t.m21, &t.m22, &t.m23, &t.m24, &t.m25, &t.m26, nullptr}; members(t, at); }
OBLIGATION(reflect_36) { s36 t{}; void const* const at[] = {&t.m0, &t.m1, &t.m2, &t.m3, &t.m4, &t.m5, &t.m6, &t.m7, &t.m8, &t.m9, &t.m10, &t.m11, &t.m12, &t.m13, &t.m14, &t.m15, &t.m16, &t.m17, &t.m18, &t.m19, &t.m20, &t.m21, &t.m22, &t.m23, &t.m24, &t.m25, &t.m26, &t.m27, &t.m28, &t.m29, &t.m30, &t.m31, &t.m32, &t.m33, &t.m34, &t.m35, nullptr}; members(t, at); }
OBLIGATION(reflect_43) { s43 t{}; void const* const at[] = {&t.m0, &t.m1, &t.m2, &t.m3, &t.m4, &t.m5, &t.m6, &t.m7, &t.m8, &t.m9, &t.m10, &t.m11, &t.m12, &t.m13, &t.m14, &t.m15, &t.m16, &t.m17, &t.m18, &t.m19, &t.m20, &t.m21, &t.m22, &t.m23, &t.m24, &t.m25, &t.m26, &t.m27, &t.m28, &t.m29, &t.m30, &t.m31, &t.m32, &t.m33, &t.m34, &t.m35, &t.m36, &t.m37, &t.m38, &t.m39, &t.m40, &t.m41, &t.m42, nullptr}; members(t, at); }
OBLIGATION(reflect_52) { s52 t{}; void const* const at[] = {&t.m0, &t.m1, &t.m2, &t.m3, &t.m4, &t.m5, &t.m6, &t.m7, &t.m8, &t.m9, &t.m10, &t.m11, &t.m12, &t.m13, &t.m14, &t.m15, &t.m16, &t.m17, &t.m18, &t.m19, &t.m20, &t.m21, &t.m22, &t.m23, &t.m24, &t.m25, &t.m26, &t.m27, &t.m28, &t.m29, &t.m30, &t.m31, &t.m32, &t.m33, &t.m34, &t.m35, &t.m36, &t.m37, &t.m38, &t.m39, &t.m40, &t.m41, &t.m42, &t.m43, &t.m44, &t.m45, &t.m46, &t.m47, &t.m48, &t.m49, &t.m50, &t.m51, nullptr}; members(t, at); }
OBLIGATION(reflect_59) { s59 t{}; void const* const at[] = {&t.m0, &t.m1, &t.m2, &t.m3, &t.m4, &t.m5, &t.m6, &t.m7, &t.m8, &t.m9, &t.m10, &t.m11, &t.m12, &t.m13, &t.m14, &t.m15, &t.m16, &t.m17, &t.m18, &t.m19, &t.m20, &t.m21, &t.m22, &t.m23, &t.m24, &t.m25, &t.m26, &t.m27, &t.m28, &t.m29, &t.m30, &t.m31, &t.m32, &t.m33, &t.m34, &t.m35, &t.m36, &t.m37, &t.m38, &t.m39, &t.m40, &t.m41, &t.m42, &t.m43, &t.m44, &t.m45, &t.m46, &t.m47, &t.m48, &t.m49, &t.m50, &t.m51, &t.m52, &t.m53, &t.m54, &t.m55, &t.m56, &t.m57, &t.m58, nullptr}; members(t, at); }
