// P09, bounded companion (see P09b_all.h)
#include "P09b_all.h"
BOTH(6)
NATIVE(lists_raw) { lists<raw::hash_map<std::uint32_t, owner>, raw::hash_set<std::uint32_t>>(); }
NATIVE(lists_offset) { lists<offset::hash_map<std::uint32_t, owner>, offset::hash_set<std::uint32_t>>(); }
NATIVE(map_default_raw) { history<raw::hash_map<std::uint32_t, owner>, std::uint32_t>(); }
NATIVE(map_default_offset) { history<offset::hash_map<offset::string, owner>, offset::string>(); }
