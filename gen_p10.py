#!/usr/bin/env python3
"""writes contracts/P10r.cc: reflection contracts for every supported member count (0..64)"""
T = ['std::uint8_t', 'std::uint32_t', 'std::int64_t', 'std::uint16_t', 'char', 'std::int32_t', 'std::uint64_t']
HEAD = """// generated by gen_p10.py -- P10: reflection visits every member exactly once, in declaration order,
// for every supported member count.
#include "vp.h"

#include "cista/reflection/for_each_field.h"

using namespace cista;

namespace {
"""
MEMBERS = '''
// the members of t are exactly these addresses, in this order
template <typename T, std::size_t N>
void members(T& t, void const* const (&at)[N]) {
  static_assert(arity<T>() == N - 1, "member count");
  std::size_t i = 0;
  for_each_field(t, [&](auto&& m) {
    vp_assert(i < N - 1 && static_cast<void const*>(&m) == at[i], "every field once, in declaration order");
    ++i;
  });
  vp_assert(i == N - 1, "all fields are visited");
  i = 0;
  for_each_ptr_field(t, [&](auto&& m) {
    vp_assert(i < N - 1 && static_cast<void const*>(m) == at[i], "every field pointer once, in declaration order");
    ++i;
  });
  vp_assert(i == N - 1, "all field pointers are visited");
  i = 0;
  for_each_field(static_cast<T const&>(t), [&](auto&& m) {
    vp_assert(i < N - 1 && static_cast<void const*>(&m) == at[i], "every field of a const object");
    ++i;
  });
  vp_assert(i == N - 1, "all fields of a const object are visited");
}
'''

PARTS = 8
for p in range(PARTS):
    ns = [n for n in range(65) if (n if n % 16 < 8 else 7 - n) % PARTS == p]
    out = [HEAD]
    for n in ns:
        mem = ' '.join(f'{T[(i * 3 + n) % len(T)]} m{i};' for i in range(n))
        out.append(f'struct s{n} {{ {mem} }};')
    out += [MEMBERS, '}  // namespace', '']
    for n in ns:
        at = ', '.join([f'&t.m{i}' for i in range(n)] + ['nullptr'])
        out.append(f'OBLIGATION(reflect_{n}) {{ s{n} t{{}}; void const* const at[] = {{{at}}}; members(t, at); }}')
    open(f'/verif/contracts/P10r{p}.cc', 'w').write('\n'.join(out) + '\n')
