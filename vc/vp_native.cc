#include <cxxabi.h>
// Native runtime of the contract vocabulary: runs the same contract functions against the
// real code, drawing inputs from a replay file (the verifier's counterexample) or from a
// seeded biased generator.  Built with AddressSanitizer and UndefinedBehaviorSanitizer.
#define VP_NATIVE 1
#include "vp.h"

#include <csetjmp>
#include <csignal>
#include <cstdio>
#include <exception>
#include <map>
#include <set>
#include <string>
#include <tuple>
#include <typeinfo>
#include <vector>

#include <sanitizer/asan_interface.h>
#include <sanitizer/allocator_interface.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

namespace {
struct ob {
  char const* name;
  void (*f)();
  bool bounded;
  uint64_t runs = 0, skips = 0, covers = 0;
};
std::vector<ob>& obs() {
  static std::vector<ob> v;
  return v;
}
struct item {
  char kind;  // a, m
  std::string name;
  uint64_t v = 0;
  std::string bytes;
};
struct mem {
  void* p;
  uint64_t size;
  uint32_t cell;
  bool freed;
};
int rt = 0;  // > 0: inside the runtime, allocations are not counted
struct guard {
  guard() { ++rt; }
  ~guard() { --rt; }
};
std::vector<item> trace, input;
std::map<std::tuple<std::string, uint64_t, uint64_t>, uint64_t> ufin, uftrace;
std::map<std::string, uint64_t> ufelse;
size_t input_pos = 0;
bool replaying = false;
uint64_t rng_s[2];
uint64_t mode_bits = 0;
std::vector<mem> mems;
int64_t live = 0, leaked = 0;
uint64_t base_live = 0;
jmp_buf skip_jmp;
char const* cur = "";
std::string out_file;
std::set<uint64_t> distinct;
volatile uint64_t progress = 0;
char fail_label[512];
bool dumped = false;

uint64_t rnd() {
  uint64_t x = rng_s[0], y = rng_s[1];
  rng_s[0] = y;
  x ^= x << 23;
  rng_s[1] = x ^ y ^ (x >> 17) ^ (y >> 26);
  return rng_s[1] + y;
}
uint64_t mix(uint64_t x) {
  x ^= x >> 33;
  x *= 0xff51afd7ed558ccdULL;
  x ^= x >> 33;
  x *= 0xc4ceb9fe1a85ec53ULL;
  return x ^ (x >> 33);
}
uint64_t mask(uint32_t bits) { return bits >= 64 ? ~0ULL : (1ULL << bits) - 1; }

uint64_t biased(uint32_t bits) {
  auto const m = mask(bits);
  switch (rnd() % 16) {
    case 0: case 1: case 2: case 3: return rnd() % 4 & m;
    case 4: case 5: case 6: return rnd() % 12 & m;
    case 7: case 8: return rnd() % 70 & m;
    case 9: return rnd() % 300 & m;
    case 10: return ((1ULL << (rnd() % 64)) + (rnd() % 3) - 1) & m;
    case 11: return (m - rnd() % 4) & m;
    case 12: return ((m >> 1) + (rnd() % 3) - 1) & m;
    default: return rnd() & m;
  }
}

void dump(char const* why) {
  if (dumped) {
    return;
  }
  dumped = true;
  guard g;
  std::printf("FAIL %s :: %s\n", cur, why);
  if (out_file.empty()) {
    std::fflush(stdout);
    return;
  }
  auto* f = std::fopen(out_file.c_str(), "w");
  if (f == nullptr) {
    return;
  }
  std::fprintf(f, "obligation %s\n", cur);
  for (auto const& i : trace) {
    if (i.kind == 'a') {
      std::fprintf(f, "any %s %llu\n", i.name.c_str(), static_cast<unsigned long long>(i.v));
    } else {
      std::fprintf(f, "mem %s %llu ", i.name.c_str(), static_cast<unsigned long long>(i.v));
      for (unsigned char c : i.bytes) {
        std::fprintf(f, "%02x", c);
      }
      std::fprintf(f, "\n");
    }
  }
  for (auto const& [k, v] : uftrace) {
    std::fprintf(f, "uf %s %llu %llu %llu\n", std::get<0>(k).c_str(),
                 static_cast<unsigned long long>(std::get<1>(k)),
                 static_cast<unsigned long long>(std::get<2>(k)), static_cast<unsigned long long>(v));
  }
  std::fprintf(f, "# %s\n", why);
  std::fclose(f);
  std::fflush(stdout);
}
void death() { dump(fail_label[0] ? fail_label : "sanitizer report / crash"); }
void on_alarm(int) {
  static uint64_t last = ~0ULL;
  static int stuck = 0;
  if (progress == last) {
    if (++stuck >= 3) {
      dump("no termination within 15 s of CPU time");
      _exit(45);
    }
  } else {
    stuck = 0;
  }
  last = progress;
}
void hook_malloc(volatile void const*, size_t) {
  if (rt == 0) {
    ++live;
  }
}
void hook_free(volatile void const* p) {
  if (rt == 0 && p != nullptr) {
    --live;
    for (auto& m : mems) {
      if (m.p == const_cast<void const*>(p) && !m.freed) {
        m.freed = true;
      }
    }
  }
}
void on_terminate() {
  auto const* t = __cxxabiv1::__cxa_current_exception_type();
  std::snprintf(fail_label, sizeof fail_label, "std::terminate (%s)", t != nullptr ? t->name() : "no exception");
  dump(fail_label);
  _exit(44);
}
[[noreturn]] void skip() { std::longjmp(skip_jmp, 1); }
}  // namespace

vp::reg::reg(char const* n, void (*f)(), bool b) {
  guard g;
  obs().push_back({n, f, b});
}

extern "C" {
uint64_t vp_any_impl(uint32_t bits, char const* name, uint64_t lo, uint64_t hi, bool range) {
  guard g;
  uint64_t v = 0;
  if (replaying) {
    if (input_pos < input.size() && input[input_pos].kind == 'a') {
      v = input[input_pos++].v & mask(bits);
    }
    if (range && (v < lo || v > hi)) {
      skip();
    }
  } else if (range) {
    if (lo > hi) {
      skip();
    }
    auto const d = hi - lo;
    auto const w = d == ~0ULL ? rnd() : rnd() % (d + 1);
    switch (rnd() % 8) {
      case 0: v = lo + (rnd() % 3 <= d ? rnd() % 3 : 0); break;
      case 1: v = hi - (rnd() % 3 <= d ? rnd() % 3 : 0); break;
      case 2: {
        auto const b = biased(bits);
        v = b >= lo && b <= hi ? b : lo + w;
        break;
      }
      default: v = lo + w;
    }
    if (v < lo || v > hi) {
      v = lo + w;
    }
  } else {
    v = bits == 1 ? rnd() & 1 : biased(bits);
  }
  trace.push_back({'a', name, v, {}});
  return v;
}
uint64_t vp_any(uint32_t bits, char const* name) { return vp_any_impl(bits, name, 0, 0, false); }
uint64_t vp_any_in(uint32_t bits, char const* name, uint64_t lo, uint64_t hi) {
  return vp_any_impl(bits, name, lo, hi, true);
}
uint64_t vp_any_size(uint32_t bits, char const* name, uint64_t lo, uint64_t hi, uint64_t nat) {
  return vp_any_impl(bits, name, lo, !replaying && hi > nat ? nat : hi, true);
}
void* vp_any_mem(uint64_t bytes, uint32_t cell, uint32_t align, char const* name) {
  if (bytes > (replaying ? 256ULL << 20 : 1ULL << 17)) {
    skip();
  }
  auto* p = static_cast<unsigned char*>(std::aligned_alloc(align, (bytes + align - 1) / align * align));
  guard g;
  // exact extent: the rounding tail is poisoned
  auto const tail = (bytes + align - 1) / align * align - bytes;
  if (tail != 0) {
    ASAN_POISON_MEMORY_REGION(p + bytes, tail);
  }
  std::string content;
  if (replaying) {
    if (input_pos < input.size() && input[input_pos].kind == 'm') {
      content = input[input_pos++].bytes;
    }
    content.resize(bytes);
    std::memcpy(p, content.data(), bytes);
  } else {
    auto const kind = rnd() % 4;
    for (uint64_t i = 0; i + cell <= bytes; i += cell) {
      uint64_t const v = kind == 0 ? rnd() % 2 : kind == 1 ? biased(cell * 8) : kind == 2 ? rnd() % 16 : rnd();
      std::memcpy(p + i, &v, cell);
    }
    for (uint64_t i = bytes / cell * cell; i < bytes; ++i) {
      p[i] = static_cast<unsigned char>(rnd());
    }
    content.assign(reinterpret_cast<char*>(p), bytes);
  }
  trace.push_back({'m', name, bytes, content});
  mems.push_back({p, bytes, cell, false});
  return p;
}
void vp_each(void const* region, bool (*pred)(void const*, uint64_t, uint64_t), void const* env) {
  for (size_t q = 0; q != mems.size(); ++q) {
    auto const m = mems[q];
    if (m.p != region) {
      continue;
    }
    item* it = nullptr;
    size_t n = 0;
    for (auto& t : trace) {
      if (t.kind == 'm' && n++ == q) {
        it = &t;
      }
    }
    for (uint64_t k = 0; k != m.size / m.cell; ++k) {
      uint64_t v = 0;
      std::memcpy(&v, static_cast<char*>(m.p) + k * m.cell, m.cell);
      for (int tries = 0; !pred(env, k, v); ++tries) {
        if (tries == 300) {
          skip();
        }
        v = biased(m.cell * 8);
      }
      std::memcpy(static_cast<char*>(m.p) + k * m.cell, &v, m.cell);
      if (it != nullptr) {
        std::memcpy(&it->bytes[k * m.cell], &v, m.cell);
      }
    }
  }
}
void vp_assume(bool b) {
  if (!b) {
    skip();
  }
}
void vp_assert(bool b, char const* label) {
  if (!b) {
    dump(label);
    _exit(42);
  }
}
void vp_cover(char const*) {}
uint64_t vp_uf(char const* name, uint64_t a, uint64_t b) {
  guard g;
  auto const k = std::make_tuple(std::string{name}, a, b);
  uint64_t v;
  if (replaying) {
    auto const it = ufin.find(k);
    v = it != ufin.end() ? it->second : ufelse[name];
  } else {
    uint64_t h = mode_bits;
    for (auto const* c = name; *c != 0; ++c) {
      h = mix(h ^ static_cast<unsigned char>(*c));
    }
    v = mix(mix(h ^ a) ^ b);
    if ((mode_bits & 3) == 0) {
      v &= 0xff03;
    } else if ((mode_bits & 3) == 1) {
      v &= 1;
    }
  }
  uftrace[k] = v;
  return v;
}
void vp_index(uint64_t) {}
uint64_t vp_live_heap() { return static_cast<uint64_t>(live + (1 << 30)); }
uint64_t vp_obj_size(void const* p) {
  for (auto const& m : mems) {
    if (m.p == p) {
      return m.freed ? 0 : m.size;
    }
  }
  return __sanitizer_get_ownership(p) ? __sanitizer_get_allocated_size(p) : 0;
}
bool vp_readable(void const* p, uint64_t n) {
  return n == 0 || (reinterpret_cast<uintptr_t>(p) >= 4096 && __asan_region_is_poisoned(const_cast<void*>(p), n) == nullptr);
}
void vp_note(char const*) {}
bool vp_symbolic() { return false; }
bool vp_fork(bool b) { return b; }
}

namespace {
// returns false when the run was skipped (assumption violated)
bool run(ob& o) {
  {
    guard g;
    trace.clear();
    uftrace.clear();
    cur = o.name;
  }
  auto const before = live;
  bool ok = true;
  if (setjmp(skip_jmp) == 0) {
    try {
      if (vp::reset != nullptr) {
        vp::reset();
      }
      o.f();
    } catch (std::exception const& e) {
      guard g;
      std::snprintf(fail_label, sizeof fail_label, "uncaught exception: %s", e.what());
      dump(fail_label);
      _exit(42);
    } catch (...) {
      dump("uncaught exception");
      _exit(42);
    }
  } else {
    rt = 0;
    ok = false;
  }
  guard g;
  ++progress;
  for (auto const& m : mems) {
    if (!m.freed) {
      --live;
      std::free(m.p);
    }
  }
  mems.clear();
  if (live > before) {
    leaked += live - before;
  }
  return ok;
}
double now() {
  timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return static_cast<double>(t.tv_sec) + static_cast<double>(t.tv_nsec) * 1e-9;
}
uint64_t trace_hash() {
  uint64_t h = 1;
  for (auto const& i : trace) {
    h = mix(h ^ i.v);
    for (unsigned char c : i.bytes) {
      h = h * 1099511628211ULL ^ c;
    }
  }
  return h;
}
}  // namespace

int main(int argc, char** argv) {
  std::setvbuf(stdout, nullptr, _IOLBF, 1 << 16);
  ++rt;
  std::string const cmd = argc > 1 ? argv[1] : "list";
  if (cmd == "list") {
    for (auto const& o : obs()) {
      std::printf("%s %s\n", o.bounded ? "bounded" : "contract", o.name);
    }
    return 0;
  }
  std::set_terminate(on_terminate);
  __sanitizer_install_malloc_and_free_hooks(hook_malloc, hook_free);
  __sanitizer_set_death_callback(death);
  std::signal(SIGPROF, on_alarm);
  itimerval tv{};
  tv.it_interval.tv_sec = 5;
  tv.it_value.tv_sec = 5;
  setitimer(ITIMER_PROF, &tv, nullptr);
  if (cmd == "replay") {
    replaying = true;
    rng_s[0] = 1;
    rng_s[1] = 2;
    auto* f = std::fopen(argv[2], "r");
    if (f == nullptr) {
      return 2;
    }
    std::string name, line;
    char* buf = nullptr;
    size_t cap = 0;
    while (getline(&buf, &cap, f) > 0) {
      line = buf;
      while (!line.empty() && (line.back() == '\n' || line.back() == ' ')) {
        line.pop_back();
      }
      std::vector<std::string> w;
      for (size_t i = 0; i < line.size();) {
        auto const e = line.find(' ', i);
        w.push_back(line.substr(i, e == std::string::npos ? e : e - i));
        if (e == std::string::npos) {
          break;
        }
        i = e + 1;
      }
      if (w.empty() || w[0] == "#") {
        continue;
      }
      auto const num = [](std::string const& s) { return std::strtoull(s.c_str(), nullptr, 10); };
      if (w[0] == "obligation") {
        name = w[1];
      } else if (w[0] == "any") {
        input.push_back({'a', w[1], num(w[2]), {}});
      } else if (w[0] == "mem") {
        std::string b;
        if (w.size() > 3) {
          for (size_t i = 0; i + 1 < w[3].size(); i += 2) {
            b.push_back(static_cast<char>(std::strtoul(w[3].substr(i, 2).c_str(), nullptr, 16)));
          }
        }
        input.push_back({'m', w[1], num(w[2]), b});
      } else if (w[0] == "uf") {
        ufin[{w[1], num(w[2]), num(w[3])}] = num(w[4]);
      } else if (w[0] == "ufelse") {
        ufelse[w[1]] = num(w[2]);
      }
    }
    for (auto& o : obs()) {
      if (name == o.name) {
        --rt;
        auto const ok = run(o);
        ++rt;
        std::printf("%s %s\n", ok ? "PASS" : "SKIP", o.name);
        return ok ? 0 : 3;
      }
    }
    std::printf("no such obligation %s\n", name.c_str());
    return 2;
  }
  // search SECONDS SEED MAXRUNS OUT names...
  auto const secs = std::atof(argv[2]);
  auto const seed = std::strtoull(argv[3], nullptr, 10);
  auto const maxruns = std::strtoull(argv[4], nullptr, 10);
  out_file = argv[5];
  std::set<std::string> want;
  for (int i = 6; i < argc; ++i) {
    want.insert(argv[i]);
  }
  auto const t0 = now();
  std::string sample;
  for (uint64_t it = 0; it < maxruns && now() - t0 < secs && leaked < 3000000; ++it) {
    for (auto& o : obs()) {
      if (!want.empty() && want.count(o.name) == 0) {
        continue;
      }
      // cheap contracts get several runs per round
      for (int rep = 0; rep < (o.bounded ? 1 : 4) && now() - t0 < secs; ++rep) {
        rng_s[0] = mix(seed * 1000003 + it * 8 + static_cast<uint64_t>(rep) + 1);
        rng_s[1] = mix(rng_s[0] ^ mix(static_cast<uint64_t>(&o - obs().data()) + 77));
        mode_bits = rnd();
        --rt;
        auto const ok = run(o);
        ++rt;
        ++o.runs;
        if (!ok) {
          ++o.skips;
        } else if (distinct.size() < 2000000) {
          distinct.insert(trace_hash() ^ mix(static_cast<uint64_t>(&o - obs().data())));
        }
        if (ok && o.runs - o.skips == 3) {
          std::string s = std::string{"SAMPLE "} + o.name;
          for (auto const& i : trace) {
            if (s.size() > 300) {
              break;
            }
            s += " " + i.name + "=" + std::to_string(i.v);
          }
          std::printf("%s\n", s.c_str());
        }
      }
    }
  }
  for (auto const& o : obs()) {
    if (o.runs != 0) {
      std::printf("RUNS %s %llu %llu %d\n", o.name, static_cast<unsigned long long>(o.runs),
                  static_cast<unsigned long long>(o.skips), o.bounded ? 1 : 0);
    }
  }
  std::printf("DISTINCT %zu\n", distinct.size());
  std::fflush(stdout);
  _exit(0);
}
