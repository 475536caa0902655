// P23: memory-mapped storage persists exactly its content.
// Ghost state: the file behind the descriptor (bytes, length) and its mapping.  mmap, munmap, msync,
// ftruncate, fstat, fileno and fclose have assumed contracts over it (a shared mapping *is* the file's
// bytes; a resized file gets new memory, so that a stale mapping is noticed).  mmap and mmap_vec are
// the real code.  Natively the contracts run over real files.
#include "vp.h"

#include <sys/mman.h>
#include <sys/stat.h>
#include <unistd.h>
#include <algorithm>
#include <cassert>
#include <cstdio>
#include <iterator>
#include <limits>
#include <string>
#include <string_view>
#include <vector>

#include "cista/containers/vector.h"
#include "cista/next_power_of_2.h"
#include "cista/strong.h"
#include "cista/targets/file.h"

#define private public
#include "cista/mmap.h"
#undef private
#include "cista/containers/mmap_vec.h"

using namespace cista;

namespace {
constexpr std::uint64_t MAXB = std::uint64_t{1} << 40;
using prot = cista::mmap::protection;

#ifndef VP_NATIVE
struct ghost {
  std::uint8_t* bytes_;
  std::uint64_t len_;
  void* mapped_;
  std::uint64_t mapped_len_;
  bool open_;
};
constexpr std::uint64_t pages(std::uint64_t n) { return (n + 4095U) / 4096U; }
#endif
}  // namespace
#ifndef VP_NATIVE
extern "C" {
// the descriptor is the index of the file; the FILE* points to its ghost state
static ghost* files_[2];
static int file_idx(FILE* f) { return reinterpret_cast<ghost*>(f) == files_[0] ? 0 : 1; }
int vpc_fileno(FILE* f) {
  vp_assert(reinterpret_cast<ghost*>(f)->open_, "precondition: an open file");
  return 3 + file_idx(f);
}
int vpc_fclose(FILE* f) {
  auto* g = reinterpret_cast<ghost*>(f);
  vp_assert(g->open_, "precondition: an open file");
  g->open_ = false;
  return 0;
}
int vpc_fstat(int fd, struct stat* s) {
  s->st_size = static_cast<off_t>(files_[fd - 3]->len_);
  return 0;
}
void* vpc_mmap(void* at, std::size_t n, int p, int flags, int fd, off_t off) {
  auto* g = files_[fd - 3];
  vp_assert(at == nullptr && off == 0 && flags == MAP_SHARED && (p & PROT_READ) != 0, "precondition: a shared mapping of the file");
  vp_assert(n != 0 && n <= g->len_, "precondition: the file is as long as its mapping");
  vp_assert(g->mapped_ == nullptr, "the file is mapped once");
  g->mapped_ = g->bytes_;
  g->mapped_len_ = n;
  return g->mapped_;
}
int vpc_munmap(void* at, std::size_t n) {
  auto* g = files_[0] != nullptr && files_[0]->mapped_ == at ? files_[0] : files_[1];
  vp_assert(g != nullptr && at != nullptr && g->mapped_ == at, "precondition: a mapping");
  vp_assert(n != 0 && pages(n) == pages(g->mapped_len_), "all pages of the mapping are unmapped");
  g->mapped_ = nullptr;
  return 0;
}
int vpc_msync(void* at, std::size_t n, int) {
  auto* g = files_[0] != nullptr && files_[0]->mapped_ == at ? files_[0] : files_[1];
  vp_assert(g != nullptr && g->mapped_ == at && pages(n) == pages(g->mapped_len_), "all of the mapping is written back");
  return 0;
}
int vpc_ftruncate(int fd, off_t n) {
  auto* g = files_[fd - 3];
  auto const u = static_cast<std::uint64_t>(n);
  vp_assert(n >= 0, "precondition: a length");
  vp_assert(g->mapped_ == nullptr, "the length of a mapped file stays");
  auto* const b = static_cast<std::uint8_t*>(std::malloc(u + 1));
  auto const keep = u < g->len_ ? u : g->len_;
  if (keep != 0) {
    std::memcpy(b, g->bytes_, keep);
  }
  if (u > keep) {
    std::memset(b + keep, 0, u - keep);
  }
  g->bytes_ = b;
  g->len_ = u;
  return 0;
}
}
#endif

namespace {
#ifdef VP_NATIVE
// a file without a name (nothing is left behind, whatever happens)
struct real_file {
  static inline std::vector<int> fds_;
  explicit real_file(std::uint8_t const* bytes, std::uint64_t n) {
    char t[] = "vp-p23-XXXXXX";
    fd_ = mkstemp(t);
    if (fd_ == -1) {
      char t2[] = "/tmp/vp-p23-XXXXXX";
      fd_ = mkstemp(t2);
      unlink(t2);
    } else {
      unlink(t);
    }
    fds_.push_back(fd_);
    path_ = "/proc/self/fd/" + std::to_string(fd_);
    for (std::uint64_t at = 0; at != n;) {
      auto const w = pwrite(fd_, bytes + at, n - at, static_cast<off_t>(at));
      vp_assert(w > 0, "written");
      at += static_cast<std::uint64_t>(w);
    }
  }
  ~real_file() {
    ::close(fd_);
    fds_.erase(std::find(fds_.begin(), fds_.end(), fd_));
  }
  std::uint64_t length() const {
    struct stat s;
    vp_assert(fstat(fd_, &s) == 0, "there");
    return static_cast<std::uint64_t>(s.st_size);
  }
  std::uint8_t at(std::uint64_t i) const {
    std::uint8_t x = 0;
    vp_assert(pread(fd_, &x, 1, static_cast<off_t>(i)) == 1, "readable");
    return x;
  }
  int fd_;
  std::string path_;
};
[[maybe_unused]] auto const set_reset = vp::reset = [] {
  for (auto const fd : real_file::fds_) {
    ::close(fd);
  }
  real_file::fds_.clear();
};
// mappings of this file (a rejected run may leave the mapping of another one behind)
inline unsigned mappings(real_file const& f) {
  struct stat st;
  vp_assert(fstat(f.fd_, &st) == 0, "there");
  unsigned n = 0;
  auto* m = std::fopen("/proc/self/maps", "r");
  char line[1024];
  while (m != nullptr && std::fgets(line, sizeof(line), m) != nullptr) {
    unsigned long ino = 0;
    n += std::sscanf(line, "%*s %*s %*s %*s %lu", &ino) == 1 && ino == st.st_ino ? 1 : 0;
  }
  std::fclose(m);
  return n;
}
#endif

// an arbitrary mapped file: any length, any part of it in use
struct any_mmap {
  explicit any_mmap(unsigned slot = 0, std::uint64_t most = MAXB, std::uint64_t unit = 1, prot const p = prot::MODIFY) {
    auto const size = vp::any_size<std::uint64_t>("size", 0, most, 9000);
    auto const units = unit == 1 && p == prot::READ ? size : vp::any_size<std::uint64_t>("used", 0, most, 9000);
    vp_assume(units <= size / unit);
    n_ = size;
    used_ = units * unit;
    auto* const m = static_cast<std::uint8_t*>(vp_any_mem(size + 1, unit == 1 ? 1 : unit > 8 ? 8 : static_cast<std::uint32_t>(unit), 16, "content"));
    i_ = vp::index("i");
    has_ = vp_fork(i_ < used_);
    old_ = has_ ? m[i_] : 0;
    new (&r_.v) cista::mmap{};
#ifdef VP_NATIVE
    (void)slot;
    f_ = new real_file{m, size};
    r_.v = cista::mmap{f_->path_.c_str(), p};
    r_.v.used_size_ = used_;
#else
    g_.bytes_ = m;
    g_.len_ = size;
    g_.mapped_ = size == 0 ? nullptr : m;
    g_.mapped_len_ = size;
    g_.open_ = true;
    files_[slot] = &g_;
    r_.v.f_.f_ = reinterpret_cast<FILE*>(&g_);
    r_.v.f_.size_ = vp::any<std::uint64_t>("file size when opened");
    r_.v.prot_ = p;
    r_.v.size_ = size;
    r_.v.used_size_ = used_;
    r_.v.addr_ = g_.mapped_;
#endif
  }
  ~any_mmap() {
#ifdef VP_NATIVE
    delete f_;
#endif
  }
  std::uint64_t length() const {
#ifdef VP_NATIVE
    return f_->length();
#else
    return g_.len_;
#endif
  }
  std::uint8_t at(std::uint64_t i) const {
#ifdef VP_NATIVE
    return f_->at(i);
#else
    return g_.bytes_[i];
#endif
  }
  bool mapped() const {
#ifdef VP_NATIVE
    return mappings(*f_) != 0;
#else
    return g_.mapped_ != nullptr;
#endif
  }
  bool open() const {
#ifdef VP_NATIVE
    return true;
#else
    return g_.open_;
#endif
  }
  void keeps(std::uint64_t now) {
    if (has_ && i_ < now) {
      vp_assert(r_.v.data()[i_] == old_, "the earlier content stays");
    }
  }
  void valid(cista::mmap const& m) {
    vp_assert(m.used_size_ <= m.size_ && m.size_ == length() && (m.addr_ != nullptr) == (m.size_ != 0), "all of the file is mapped");
  }
  // what the file holds after it has been closed
  void persisted(std::uint64_t now) {
    vp_assert(!mapped(), "nothing stays mapped");
    vp_assert(length() == now, "the file has the length of the content");
    if (has_ && i_ < now) {
      vp_assert(at(i_) == old_, "the file holds the content");
    }
  }
#ifdef VP_NATIVE
  real_file* f_;
#else
  ghost g_;
#endif
  vp::raw<cista::mmap> r_;
  std::uint64_t n_, used_, i_;
  std::uint8_t old_;
  bool has_;
};
}  // namespace

// --------------------------------------------------------------------------------------- mmap
OBLIGATION(mmap_resize) {
  auto const n = vp::any_size<std::uint64_t>("n", 0, MAXB, 9000);
  any_mmap s;
  s.r_.v.resize(n);
  auto& m = s.r_.v;
  vp_assert(m.size() == n && static_cast<std::uint64_t>(m.end() - m.begin()) == n && m.view().size() == n, "as large as asked for");
  vp_assert(m.size_ >= n && m.size_ >= s.n_, "the mapping never shrinks");
  s.valid(m);
  vp_assert(n == 0 || vp_readable(m.data(), n), "all of it is mapped");
  s.keeps(n);
  m.~mmap();
  s.persisted(n == 0 && s.n_ == 0 ? 0 : n);
}
OBLIGATION(mmap_reserve) {
  auto const n = vp::any_size<std::uint64_t>("n", 0, MAXB, 9000);
  any_mmap s;
  s.r_.v.reserve(n);
  auto& m = s.r_.v;
  vp_assert(m.size() == s.used_ && m.size_ >= n && m.size_ >= s.n_, "room, but the content stays");
  s.valid(m);
  s.keeps(s.used_);
  m.~mmap();
  s.persisted(s.used_);
}
OBLIGATION(mmap_write) {
  any_mmap s;
  vp_assume(s.used_ != 0);
  auto const k = vp::any_in<std::uint64_t>("k", 0, s.used_ - 1);
  auto const x = vp::any<std::uint8_t>("x");
  vp_index(k);
  auto& m = s.r_.v;
  m[k] = x;
  cista::mmap const& c = m;
  vp_assert(c[k] == x && m.data()[k] == x && c.data() + k == &c[k] && c.begin() == m.begin() && c.end() == m.end() &&
                c.end() == c.begin() + s.used_ && c.view().data() == reinterpret_cast<char const*>(c.data()) && c.view().size() == s.used_,
            "the byte written");
  if (s.i_ != k) {
    s.keeps(s.used_);
  }
  m.sync();
  vp_assert(s.at(k) == x && m.size() == s.used_, "in the file as well");
  m.~mmap();
  if (s.i_ == k) {
    s.old_ = x;
  }
  s.persisted(s.used_);
}
OBLIGATION(mmap_close) {
  any_mmap s;
  s.r_.v.~mmap();
  s.persisted(s.used_);
#ifndef VP_NATIVE
  vp_assert(!s.g_.open_, "the file is closed");
#endif
}
OBLIGATION(mmap_read_only) {
  auto const n = vp::any_size<std::uint64_t>("n", 0, MAXB, 9000);
  any_mmap s{0, MAXB, 1, prot::READ};
  auto thrown = 0;
  try {
    s.r_.v.resize(n);
  } catch (cista_exception const&) {
    ++thrown;
  }
  try {
    s.r_.v.reserve(n);
  } catch (cista_exception const&) {
    ++thrown;
  }
  vp_assert(thrown == 2 && s.r_.v.size() == s.used_, "a file opened for reading can not be resized");
  s.keeps(s.used_);
  s.r_.v.~mmap();
  s.persisted(s.n_);
}
OBLIGATION(mmap_default) {
  cista::mmap m;
  vp_assert(m.size() == 0 && m.data() == nullptr && m.begin() == m.end(), "nothing");
}
OBLIGATION(mmap_move) {
  any_mmap s;
  auto const* const p = s.r_.v.data();
  {
    cista::mmap m{std::move(s.r_.v)};
    vp_assert(m.data() == p && m.size() == s.used_ && s.r_.v.data() == nullptr, "moved");
    s.valid(m);
    s.r_.v.~mmap();
    vp_assert(s.mapped() == (s.n_ != 0) && s.length() == s.n_, "the one moved from no longer owns the file");
    if (s.has_) {
      vp_assert(m[s.i_] == s.old_, "the content");
    }
  }
  s.persisted(s.used_);
}
OBLIGATION(mmap_move_self) {
  any_mmap s;
  auto& self = s.r_.v;
  s.r_.v = std::move(self);
  s.valid(s.r_.v);
  vp_assert(s.r_.v.size() == s.used_, "still there");
  s.keeps(s.used_);
  s.r_.v.~mmap();
  s.persisted(s.used_);
}
OBLIGATION(mmap_move_assign) {
  any_mmap s{0}, t{1};
  auto const* const p = s.r_.v.data();
  t.r_.v = std::move(s.r_.v);
  vp_assert(t.r_.v.data() == p && t.r_.v.size() == s.used_ && s.r_.v.data() == nullptr, "moved");
#ifndef VP_NATIVE
  t.persisted(t.used_ == 0 && t.n_ == 0 ? 0 : t.used_);
  vp_assert(!t.g_.open_ && s.g_.open_, "the other file is closed");
#else
  vp_assert(t.length() == t.used_, "the other file has the length of its content");
#endif
  s.r_.v.~mmap();
  if (s.has_) {
    vp_assert(t.r_.v[s.i_] == s.old_, "the content");
  }
  t.r_.v.~mmap();
  s.persisted(s.used_);
}

// ------------------------------------------------------------------------------------ mmap_vec
#ifndef VP_NATIVE
namespace {
// std::rotate of the last element to the front of a range (all that mmap_vec uses it for)
template <typename T>
T* rotate_last(T* first, T* middle, T* last) {
  vp_assert(middle == last - 1, "rotate: one element");
  auto const x = *middle;
  if (first != middle) {
    std::memmove(first + 1, first, static_cast<std::size_t>(middle - first) * sizeof(T));
    *first = x;
  }
  return first + 1;
}
}  // namespace
extern "C" {
std::uint32_t* vpc_rotate32(std::uint32_t* a, std::uint32_t* b, std::uint32_t* c) { return rotate_last(a, b, c); }
std::uint64_t* vpc_rotate64(std::uint64_t* a, std::uint64_t* b, std::uint64_t* c) { return rotate_last(a, b, c); }
std::uint8_t* vpc_rotate8(std::uint8_t* a, std::uint8_t* b, std::uint8_t* c) { return rotate_last(a, b, c); }
}
#endif
namespace {
using key_t_ = cista::strong<std::uint32_t, struct key_tag_>;
template <typename V>
struct any_vec {
  using T = typename V::value_type;
  any_vec() : m_{0, MAXB, sizeof(T)} {
    n_ = static_cast<std::uint32_t>(m_.used_ / sizeof(T));
    vp_assume(m_.used_ / sizeof(T) <= (std::uint64_t{1} << 31));
    k_ = vp::any_size<std::uint32_t>("k", 0, 1U << 31, 60);
    vp_index(k_);
    has_ = vp_fork(k_ < n_);
    x_ = has_ ? reinterpret_cast<T const*>(m_.r_.v.data())[k_] : T{};
    new (&r_.v) V{std::move(m_.r_.v)};
    vp_assert(r_.v.size() == n_ && r_.v.empty() == (n_ == 0), "all of the file");
  }
  T at(std::uint32_t i) { return r_.v.data()[i]; }
  // n elements now; the one that was at k is now at k2 (if it is still there)
  void is(std::uint64_t n, bool there, std::uint64_t k2) {
    vp_assert(r_.v.size() == n && static_cast<std::uint64_t>(r_.v.end() - r_.v.begin()) == n, "the size");
    vp_assert(r_.v.mmap_.size() == n * sizeof(T) && r_.v.mmap_.size_ >= n * sizeof(T), "the size of the content to persist");
    m_.valid(r_.v.mmap_);
    if (has_ && there) {
      vp_assert(at(static_cast<std::uint32_t>(k2)) == x_, "the earlier elements stay");
    }
  }
  // closed and opened again
  void persisted(std::uint64_t n) {
    r_.v.~V();
    vp_assert(!m_.mapped() && m_.length() == n * sizeof(T), "the file has the length of the content");
  }
  any_mmap m_;
  vp::raw<V> r_;
  std::uint32_t n_, k_;
  T x_;
  bool has_;
};
template <typename V>
void v_push() {
  auto const y = vp::any<typename V::value_type>("y");
  any_vec<V> s;
  s.r_.v.push_back(y);
  s.is(s.n_ + 1ULL, true, s.k_);
  vp_assert(s.at(s.n_) == y, "the new element is the last one");
  s.persisted(s.n_ + 1ULL);
}
template <typename V>
void v_emplace() {
  auto const y = vp::any<typename V::value_type>("y");
  any_vec<V> s;
  auto& r = s.r_.v.emplace_back(y);
  s.is(s.n_ + 1ULL, true, s.k_);
  vp_assert(s.at(s.n_) == y && &r == s.r_.v.data() + s.n_, "the new element is the last one");
  s.persisted(s.n_ + 1ULL);
}
template <typename V>
void v_push_own() {
  any_vec<V> s;
  vp_assume(s.has_);
  if (vp_fork(vp::any<bool>("emplace"))) {
    s.r_.v.emplace_back(s.r_.v.data()[s.k_]);
  } else {
    s.r_.v.push_back(s.r_.v.data()[s.k_]);
  }
  s.is(s.n_ + 1ULL, true, s.k_);
  vp_assert(s.at(s.n_) == s.x_, "the new element is the last one");
}
template <typename V>
void v_resize() {
  auto const n = vp::any_size<std::uint32_t>("n", 0, 1U << 31, 3000);
  auto const j = vp::any_size<std::uint32_t>("j", 0, 1U << 31, 3000);
  vp_index(j);
  any_vec<V> s;
  s.r_.v.resize(n);
  s.is(n, s.k_ < n, s.k_);
  if (j >= s.n_ && j < n) {
    vp_assert(s.at(j) == typename V::value_type{}, "new elements are value initialised");
  }
  s.persisted(n);
}
template <typename V>
void v_reserve() {
  auto const n = vp::any_size<std::uint32_t>("n", 0, 1U << 31, 3000);
  any_vec<V> s;
  s.r_.v.reserve(n);
  s.is(s.n_, true, s.k_);
  s.persisted(s.n_);
}
template <typename V>
void v_access() {
  any_vec<V> s;
  vp_assume(s.has_);
  auto const y = vp::any<typename V::value_type>("y");
  auto const k = typename V::access_type{s.k_};
  V const& c = s.r_.v;
  vp_assert(c[k] == s.x_ && s.r_.v[k] == s.x_ && c.data()[s.k_] == s.x_ && c.begin()[s.k_] == s.x_ && c.cbegin() == c.begin() &&
                c.cend() == c.end() && begin(c) == c.begin() && end(c) == c.end() && begin(s.r_.v) == c.begin() && end(s.r_.v) == c.end(),
            "the element");
  s.r_.v[k] = y;
  s.x_ = y;
  s.is(s.n_, true, s.k_);
  s.persisted(s.n_);
}
template <typename V>
void v_insert() {
  auto const y = vp::any<typename V::value_type>("y");
  auto const p = vp::any_size<std::uint32_t>("position", 0, 1U << 31, 60);
  vp_index(p);
  any_vec<V> s;
  vp_assume(p <= s.n_);
  vp_index(s.k_ + 1ULL);
  auto* const it = s.r_.v.insert(s.r_.v.begin() + p, y);
  vp_assert(it == s.r_.v.begin() + p && *it == y, "the inserted element");
  s.is(s.n_ + 1ULL, true, s.k_ < p ? s.k_ : s.k_ + 1ULL);
}
template <typename V>
void v_set() {
  using T = typename V::value_type;
  auto const n = vp::any_size<std::uint32_t>("n", 0, 1U << 31, 60);
  auto* const src = vp::any_array<T>(n + 1ULL, "source");
  auto const j = vp::any_size<std::uint32_t>("j", 0, 1U << 31, 60);
  vp_index(j);
  any_vec<V> s;
  s.r_.v.set(src, src + n);
  s.is(n, false, 0);
  if (j < n) {
    vp_assert(s.at(j) == src[j], "the elements of the range");
  }
  s.persisted(n);
}
template <typename V>
void v_insert_range() {
  using T = typename V::value_type;
  auto const n = vp::any_size<std::uint32_t>("n", 0, 1U << 30, 60);
  auto* const src = vp::any_array<T>(n + 1ULL, "source");
  auto const j = vp::any_size<std::uint32_t>("j", 0, 1U << 30, 60);
  vp_index(j);
  auto const p = vp::any_size<std::uint32_t>("position", 0, 1U << 31, 60);
  vp_index(p);
  any_vec<V> s;
  vp_assume(p <= s.n_ && s.n_ < (1U << 30) && n != 0);
  auto* const it = s.r_.v.insert(s.r_.v.begin() + p, src, src + n);
  vp_assert(it == s.r_.v.begin() + p, "the first inserted element");
  vp_index(s.k_ + std::uint64_t{n});
  vp_index(p + std::uint64_t{j});
  s.is(s.n_ + std::uint64_t{n}, true, s.k_ < p ? s.k_ : s.k_ + std::uint64_t{n});
  if (j < n) {
    vp_assert(s.at(p + j) == src[j], "the elements of the range");
  }
}
using V32 = mmap_vec<std::uint32_t>;
using V64 = mmap_vec_map<key_t_, std::uint64_t>;
using V8 = mmap_vec<std::uint8_t>;
}  // namespace
#define VEC(T)                                                \
  OBLIGATION(vec_push_##T) { v_push<V##T>(); }                \
  OBLIGATION(vec_emplace_##T) { v_emplace<V##T>(); }          \
  OBLIGATION(vec_push_own_##T) { v_push_own<V##T>(); }        \
  OBLIGATION(vec_resize_##T) { v_resize<V##T>(); }            \
  OBLIGATION(vec_reserve_##T) { v_reserve<V##T>(); }          \
  OBLIGATION(vec_access_##T) { v_access<V##T>(); }            \
  OBLIGATION(vec_insert_##T) { v_insert<V##T>(); }            \
  OBLIGATION(vec_set_##T) { v_set<V##T>(); }                  \
  OBLIGATION(vec_insert_range_##T) { v_insert_range<V##T>(); }
VEC(8)
VEC(32)
VEC(64)

// ----------------------------------------------------------------------------- histories (bounded)
#ifdef VP_NATIVE
namespace {
template <typename T>
T val(unsigned x) {
  return static_cast<T>(x * 2654435761U);
}
template <typename V>
void history() {
  using T = typename V::value_type;
  real_file f{nullptr, 0};
  std::vector<T> want;
  auto const sessions = vp::any_in<unsigned>("sessions", 1, 4);
  unsigned next = 1;
  for (unsigned se = 0; se != sessions; ++se) {
    {
      V v{cista::mmap{f.path_.c_str(), se == 0 ? prot::WRITE : prot::MODIFY}};
      vp_assert(v.size() == want.size() && std::equal(v.begin(), v.end(), want.begin()), "reopened");
      auto const steps = vp::any_in<unsigned>("steps", 0, 12);
      for (unsigned st = 0; st != steps; ++st) {
        auto const op = vp::any_in<unsigned>("op", 0, 12);
        auto const a = vp::any_in<unsigned>("a", 0, 2100);
        auto const pos = want.empty() ? 0 : a % want.size();
        switch (op) {
          case 0: case 1: v.push_back(val<T>(++next)); want.push_back(val<T>(next)); break;
          case 2: v.emplace_back(val<T>(++next)); want.push_back(val<T>(next)); break;
          case 3: {
            auto const n = vp::any_in<unsigned>("many", 0, 1500);
            for (unsigned i = 0; i != n; ++i) {
              v.push_back(val<T>(++next));
              want.push_back(val<T>(next));
            }
            break;
          }
          case 4: v.resize(static_cast<std::uint32_t>(a)); want.resize(a); break;
          case 5: v.reserve(static_cast<std::uint32_t>(a)); break;
          case 6: {
            auto* const it = v.insert(v.begin() + pos, val<T>(++next));
            vp_assert(it == v.begin() + pos, "position");
            want.insert(want.begin() + static_cast<std::ptrdiff_t>(pos), val<T>(next));
            break;
          }
          case 7: {
            std::vector<T> src;
            for (unsigned i = 0; i != a % 40; ++i) {
              src.push_back(val<T>(++next));
            }
            auto* const it = v.insert(v.begin() + pos, src.begin(), src.end());
            vp_assert(it == v.begin() + pos, "position");
            want.insert(want.begin() + static_cast<std::ptrdiff_t>(pos), src.begin(), src.end());
            break;
          }
          case 8: {
            want.clear();
            for (unsigned i = 0; i != a % 600; ++i) {
              want.push_back(val<T>(++next));
            }
            v.set(want.begin(), want.end());
            break;
          }
          case 9:
            if (!want.empty()) {
              auto const x = want[pos];
              if (a % 2 == 0) {
                v.push_back(v.data()[pos]);
              } else {
                v.emplace_back(v.data()[pos]);
              }
              want.push_back(x);
            }
            break;
          case 10:
            if (!want.empty()) {
              want[pos] = val<T>(++next);
              v[typename V::access_type{static_cast<std::uint32_t>(pos)}] = want[pos];
            }
            break;
          case 11: {
            V w{std::move(v)};
            V* o = &v;
            o->~V();
            new (o) V{std::move(w)};
            break;
          }
          default:
            if (!want.empty()) {
              auto const x = want.back();
              v.insert(v.begin() + pos, v.data()[want.size() - 1]);
              want.insert(want.begin() + static_cast<std::ptrdiff_t>(pos), x);
            }
        }
        vp_assert(v.size() == want.size() && v.empty() == want.empty() && std::equal(v.begin(), v.end(), want.begin()), "the sequence");
      }
      v.mmap_.sync();
    }
    vp_assert(mappings(f) == 0, "nothing stays mapped");
    vp_assert(f.length() == want.size() * sizeof(T), "the file has the length of the content");
    V const r{cista::mmap{f.path_.c_str(), prot::READ}};
    vp_assert(r.size() == want.size() && std::equal(r.begin(), r.end(), want.begin()), "read back");
  }
}
struct pod {
  bool operator==(pod const& o) const { return a_ == o.a_ && b_ == o.b_; }
  std::uint32_t a_, b_, c_;
};
}  // namespace
NATIVE(history_u8) { history<V8>(); }
NATIVE(history_u32) { history<V32>(); }
NATIVE(history_u64) { history<V64>(); }
NATIVE(history_bytes) {
  real_file f{nullptr, 0};
  std::string want;
  auto const sessions = vp::any_in<unsigned>("sessions", 1, 4);
  for (unsigned se = 0; se != sessions; ++se) {
    {
      cista::mmap m{f.path_.c_str(), se == 0 ? prot::WRITE : prot::MODIFY};
      vp_assert(m.view() == want, "reopened");
      auto const steps = vp::any_in<unsigned>("steps", 0, 8);
      for (unsigned st = 0; st != steps; ++st) {
        auto const op = vp::any_in<unsigned>("op", 0, 4);
        auto const n = vp::any_in<unsigned>("n", 0, 13000);
        if (op < 2) {
          auto const before = m.size();
          m.resize(n);
          want.resize(n);
          for (auto i = before; i < n; ++i) {
            m[i] = static_cast<std::uint8_t>(i * 7 + st + se);
            want[i] = static_cast<char>(m[i]);
          }
        } else if (op == 2) {
          m.reserve(n);
        } else if (op == 3 && !want.empty()) {
          m[n % want.size()] = static_cast<std::uint8_t>(st);
          want[n % want.size()] = static_cast<char>(st);
        } else {
          real_file g{reinterpret_cast<std::uint8_t const*>("xyz"), 3};
          cista::mmap o{g.path_.c_str(), prot::MODIFY};
          auto& self = m;
          m = std::move(self);
          o = std::move(m);
          vp_assert(g.length() == 3, "the other file");
          m = std::move(o);
        }
        vp_assert(m.view() == want, "the bytes");
      }
    }
    vp_assert(mappings(f) == 0, "nothing stays mapped");
    vp_assert(f.length() == want.size(), "the file has the length of the content");
    cista::mmap const r{f.path_.c_str(), prot::READ};
    vp_assert(r.view() == want, "read back");
  }
}
// no descriptor is lost when files are moved
NATIVE(descriptors) {
  real_file f{nullptr, 0}, g{nullptr, 0};
  auto const next = ::dup(f.fd_);
  ::close(next);
  {
    file a{f.path_.c_str(), "r+"}, b{g.path_.c_str(), "r+"};
    auto& self = a;
    a = std::move(self);
    vp_assert(a.f_ != nullptr, "moved onto itself");
    a = std::move(b);
    b = std::move(a);
    cista::mmap m{f.path_.c_str(), prot::MODIFY}, n{g.path_.c_str(), prot::MODIFY};
    m = std::move(n);
  }
  auto const again = ::dup(f.fd_);
  ::close(again);
  vp_assert(again == next, "all files are closed");
}
#endif
