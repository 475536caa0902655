// P05: serialisation targets place every block aligned, behind the data, and intact.
// Abstract view of a target: the byte sequence written so far.  The buffer target is built over an
// arbitrary byte vector (any size, any spare capacity, any content).  The file target is proved over
// a ghost file: a byte array with a length and a cursor; the C library's file functions are replaced
// by contracts over it (vpc_* below, assumed contracts on a dependency) and exercised for real in
// the native scenarios.
#include "vp.h"
#include "arb.h"

#include <sys/stat.h>
#include <unistd.h>
#include <string>
#include <vector>

#include "cista/chunk.h"
#include "cista/targets/buf.h"
#include "cista/targets/file.h"
#include "cista/memory_holder.h"
#include "cista/mmap.h"

using namespace cista;

namespace {
constexpr std::uint64_t MAXB = std::uint64_t{1} << 40;

// ------------------------------------------------------------------------------ buffer target
// an arbitrary std::vector<std::uint8_t>: begin, end, end of storage
struct bytes {
  bytes() {
    n_ = vp::any_size<std::uint64_t>("bytes", 0, MAXB, 100);
    auto const cap = n_ + vp::any_size<std::uint64_t>("spare", 0, MAXB, 40);
    vp_assume(cap != 0);
    auto* m = static_cast<std::uint8_t*>(vp_any_mem(cap, 1, 16, "content"));
#ifdef VP_NATIVE  // the sanitizer wants the memory of a std::vector to come from operator new
    m = static_cast<std::uint8_t*>(std::memcpy(::operator new(cap), m, cap));
#endif
    std::uint8_t* p[3] = {m, m + n_, m + cap};
    static_assert(sizeof(std::vector<std::uint8_t>) == sizeof(p));
    new (&r_.v) buf<byte_buf>{};
    std::memcpy(static_cast<void*>(&r_.v.buf_), p, sizeof(p));
    i_ = vp::index("i");
    old_ = vp_fork(i_ < n_) ? m[i_] : 0;
  }
  buf<byte_buf>& operator*() { return r_.v; }
  buf<byte_buf>* operator->() { return &r_.v; }
  vp::raw<buf<byte_buf>> r_;
  std::uint64_t n_, i_;
  std::uint8_t old_;
};

template <std::size_t Align>
void buf_append() {
  bytes b;
  auto const m = vp::any_size<std::uint64_t>("m", 1, MAXB, 60);
  auto* src = vp::any_array<std::uint8_t>(m, "block");
  auto const k = vp::any_in<std::uint64_t>("k", 0, m - 1);
  auto const x = src[k];
  vp_index(k);
  auto const p = b->write(src, m, Align);
  constexpr auto A = Align == 0 ? 1 : Align;
  vp_assert(p >= 0 && static_cast<std::uint64_t>(p) % A == 0, "aligned as requested");
  auto const u = static_cast<std::uint64_t>(p);
  vp_assert(u >= b.n_ && u < b.n_ + A, "directly behind the data, up to padding");
  vp_assert(b->size() == u + m, "ends with the block");
  vp_index(u + k);
  vp_assert((*b)[u + k] == x && b->base()[u + k] == x && *b->addr(p + static_cast<offset_t>(k)) == x, "holds exactly the given bytes");
  if (b.i_ < b.n_) {
    vp_assert((*b)[b.i_] == b.old_, "earlier blocks are unchanged");
  } else if (b.i_ < u) {
    vp_assert((*b)[b.i_] == 0, "padding is zero");
  }
  vp_assert(src[k] == x, "the source is left alone");
}
struct twelve {
  std::uint32_t a, b, c;
};
template <typename T>
void buf_at() {
  bytes b;
  auto const pos = vp::any_size<std::uint64_t>("pos", 0, MAXB, 120);
  alignas(8) std::uint8_t v[sizeof(T)];
  for (auto& c : v) {
    c = vp::any<std::uint8_t>("byte");
  }
  T val;
  std::memcpy(&val, v, sizeof(T));
  vp_index(pos);
  auto thrown = false;
  try {
    b->write(pos, val);
  } catch (cista_exception const&) {
    thrown = true;
  }
  vp_assert(thrown == (pos + sizeof(T) > b.n_), "rejects exactly what is out of bounds");
  vp_assert(b->size() == b.n_, "the size stays");
  if (!thrown) {
    for (unsigned k = 0; k != sizeof(T); ++k) {
      vp_assert((*b)[pos + k] == v[k], "the bytes of the value");
    }
  }
  if (b.i_ < b.n_ && (thrown || b.i_ < pos || b.i_ >= pos + sizeof(T))) {
    vp_assert((*b)[b.i_] == b.old_, "no other byte changes");
  }
}
}  // namespace

OBLIGATION(buf_append_0) { buf_append<0>(); }
OBLIGATION(buf_append_1) { buf_append<1>(); }
OBLIGATION(buf_append_2) { buf_append<2>(); }
OBLIGATION(buf_append_4) { buf_append<4>(); }
OBLIGATION(buf_append_8) { buf_append<8>(); }
OBLIGATION(buf_append_16) { buf_append<16>(); }
OBLIGATION(buf_append_empty) {
  buf<byte_buf> b;
  auto const m = vp::any_size<std::uint64_t>("m", 1, MAXB, 60);
  auto* src = vp::any_array<std::uint8_t>(m, "block");
  auto const k = vp::any_in<std::uint64_t>("k", 0, m - 1);
  vp_index(k);
  vp_assert(b.size() == 0, "a new target is empty");
  auto const p = b.write(src, m, 8);
  vp_assert(p == 0 && b.size() == m && b[k] == src[k], "the first block starts the data");
  b.reset();
  vp_assert(b.size() == 0, "nothing left");
}
OBLIGATION(buf_at_u8) { buf_at<std::uint8_t>(); }
OBLIGATION(buf_at_u16) { buf_at<std::uint16_t>(); }
OBLIGATION(buf_at_u32) { buf_at<std::uint32_t>(); }
OBLIGATION(buf_at_u64) { buf_at<std::uint64_t>(); }
OBLIGATION(buf_at_struct) { buf_at<twelve>(); }
OBLIGATION(buf_checksum) {
  bytes b;
  auto const s = vp::any_in<std::uint64_t>("start", 0, MAXB);
  vp_assume(s < b.n_);
  auto const* p = b->base() + s;
  auto const want = hash(std::string_view{reinterpret_cast<char const*>(p), b.n_ - s});
  vp_assert(b->checksum(static_cast<offset_t>(s)) == want, "the hash of exactly the range from there to the end");
}
OBLIGATION(chunks) {
  auto const c = vp::any_size<unsigned>("chunk", 1, 1u << 30, 16);
  auto const n = vp::any_size<std::uint64_t>("total", 0, MAXB, 200);
  std::uint64_t next = 0;
  chunk(c, n, [&](std::uint64_t const at, unsigned const len) {
    vp_assert(at == next, "continues where the last one ended");
    vp_assert(len > 0 && len <= c && len <= n - at, "a chunk inside the range");
    next = at + len;
  });
  vp_assert(next == n, "the whole range is covered");
}

// --------------------------------------------------------------------------------- owned memory
OBLIGATION(buffer_ownership) {
  auto const before = vp_live_heap();
  {
    auto const n = vp::any_size<std::uint64_t>("n", 1, MAXB, 64);
    auto const m = vp::any_size<std::uint64_t>("m", 1, MAXB, 64);
    buffer a{n}, b{m};
    auto const pa = a.data(), pb = b.data();
    vp_assert(a.size() == n && a.end() - a.begin() == static_cast<std::ptrdiff_t>(n), "as large as asked for");
    auto const i = vp::any_in<std::uint64_t>("i", 0, n - 1);
    vp_index(i);
    auto const x = vp::any<std::uint8_t>("x");
    a[i] = x;
    auto const how = vp::enumerate<4>(vp::any_in<unsigned>("how", 0, 3));
    if (how == 0) {
      buffer c{std::move(a)};
      vp_assert(c.data() == pa && c.size() == n && c[i] == x && a.data() == nullptr && a.size() == 0, "moved");
    } else if (how == 1) {
      b = std::move(a);
      vp_assert(b.data() == pa && b.size() == n && b[i] == x && a.data() == nullptr && a.size() == 0, "moved over another one");
    } else if (how == 2) {
      auto& self = a;
      a = std::move(self);
      vp_assert(a.data() == pa && a.size() == n && a[i] == x, "moved onto itself");
    } else {
      b.free();
      vp_assert(b.data() == nullptr && b.size() == 0 && a[i] == x, "freed");
      b = buffer{};
      (void)pb;
    }
  }
  vp_assert(vp_live_heap() == before, "released once");
}
OBLIGATION(buffer_from_text) {
  auto const n = vp::any_size<std::uint64_t>("n", 1, MAXB, 64);
  auto* s = vp::any_array<char>(n, "text");
  auto const i = vp::any_in<std::uint64_t>("i", 0, n - 1);
  vp_index(i);
  buffer b{s, n};
  vp_assert(b.size() == n && static_cast<char>(b[i]) == s[i] && b.data() != reinterpret_cast<std::uint8_t*>(s), "a copy of the text");
}

// -------------------------------------------------------------------------------- file target
namespace {
// the file behind a FILE*: its bytes, its length and the position of the next read or write
struct ghost_file {
  std::uint8_t* bytes_;
  std::uint64_t cap_, len_, cur_;
};
}  // namespace
#ifndef VP_NATIVE
extern "C" {
// assumed contracts of the C library's file functions (each may fail)
int vpc_fseek(FILE* f, long off, int whence) {
  auto* g = reinterpret_cast<ghost_file*>(f);
  if (vp_fork(vp::any<bool>("seek fails"))) {
    return -1;
  }
  g->cur_ = static_cast<std::uint64_t>(off) + (whence == SEEK_SET ? 0 : whence == SEEK_CUR ? g->cur_ : g->len_);
  return 0;
}
std::size_t vpc_fwrite(void const* p, std::size_t size, std::size_t n, FILE* f) {
  auto* g = reinterpret_cast<ghost_file*>(f);
  vp_assert(size == 1, "bytes are written");
  auto w = n;
  if (vp_fork(vp::any<bool>("write fails"))) {
    w = vp::any<std::size_t>("written");
    vp_assume(w < n);
  }
  if (w != 0) {
    vp_assume(g->cur_ + w <= g->cap_);  // the disk is large enough
    if (g->cur_ > g->len_) {
      std::memset(g->bytes_ + g->len_, 0, g->cur_ - g->len_);
    }
    std::memcpy(g->bytes_ + g->cur_, p, w);
    g->cur_ += w;
    g->len_ = g->cur_ > g->len_ ? g->cur_ : g->len_;
  }
  return w;
}
std::size_t vpc_fread(void* p, std::size_t size, std::size_t n, FILE* f) {
  auto* g = reinterpret_cast<ghost_file*>(f);
  vp_assert(size == 1, "bytes are read");
  auto const left = g->cur_ < g->len_ ? g->len_ - g->cur_ : 0;
  auto r = n < left ? n : left;
  if (vp_fork(vp::any<bool>("read fails"))) {
    r = vp::any<std::size_t>("read");
    vp_assume(r < n && r <= left);
  }
  if (r != 0) {
    std::memcpy(p, g->bytes_ + g->cur_, r);
  }
  g->cur_ += r;
  return r;
}
int vpc_fileno(FILE*) { return 3; }
int vpc_fclose(FILE*) { return 0; }
}
#endif

namespace {
// a file target over an arbitrary file
struct any_file {
  explicit any_file(std::uint64_t least = 0) {
    n_ = vp::any_size<std::uint64_t>("length", least, MAXB, 100);
    g_.cap_ = 3 * MAXB;
    g_.len_ = n_;
    new (&r_.v) file{};
#ifdef VP_NATIVE
    g_.bytes_ = static_cast<std::uint8_t*>(vp_any_mem(n_, 1, 16, "content"));
    r_.v.f_ = std::tmpfile();
    std::fwrite(g_.bytes_, 1, n_, r_.v.f_);
    std::fseek(r_.v.f_, static_cast<long>(vp::any_size<std::uint64_t>("cursor", 0, MAXB, 120)), SEEK_SET);
#else
    g_.bytes_ = static_cast<std::uint8_t*>(vp_any_mem(3 * MAXB, 1, 16, "content"));
    g_.cur_ = vp::any_size<std::uint64_t>("cursor", 0, MAXB, 120);
    r_.v.f_ = reinterpret_cast<FILE*>(&g_);
#endif
    r_.v.size_ = n_;
    i_ = vp::index("i");
    old_ = vp_fork(i_ < n_) ? g_.bytes_[i_] : 0;
  }
  ~any_file() {
#ifdef VP_NATIVE
    std::fclose(r_.v.f_);
#endif
  }
  std::uint64_t length() {
#ifdef VP_NATIVE
    std::fflush(r_.v.f_);
    return r_.v.size();
#else
    return g_.len_;
#endif
  }
  std::uint8_t at(std::uint64_t i) {
#ifdef VP_NATIVE
    std::uint8_t x = 0;
    std::fflush(r_.v.f_);
    vp_assert(pread(fileno(r_.v.f_), &x, 1, static_cast<off_t>(i)) == 1, "readable");
    return x;
#else
    return g_.bytes_[i];
#endif
  }
  file& operator*() { return r_.v; }
  file* operator->() { return &r_.v; }
  ghost_file g_;
  vp::raw<file> r_;
  std::uint64_t n_, i_;
  std::uint8_t old_;
};
template <std::size_t Align>
void file_append() {
  any_file f;
  auto const m = vp::any_size<std::uint64_t>("m", 0, MAXB, 60);
  auto* src = vp::any_array<std::uint8_t>(m + 1, "block");
  auto const k = vp::any_in<std::uint64_t>("k", 0, m);
  auto const x = src[k];
  vp_index(k);
  offset_t p = 0;
  try {
    p = f->write(src, m, Align);
  } catch (cista_exception const&) {
    vp_assert(vp_symbolic(), "no failure without an i/o error");
    return;
  }
  constexpr auto A = Align == 0 ? 1 : Align;
  vp_assert(p >= 0 && static_cast<std::uint64_t>(p) % A == 0, "aligned as requested");
  auto const u = static_cast<std::uint64_t>(p);
  vp_assert(u >= f.n_ && u < f.n_ + A, "directly behind the data, up to padding");
  vp_assert(f.length() == u + m && f->size_ == u + m, "ends with the block");
  vp_index(u + k);
  if (k < m) {
    vp_assert(f.at(u + k) == x, "holds exactly the given bytes");
  }
  if (f.i_ < f.n_) {
    vp_assert(f.at(f.i_) == f.old_, "earlier blocks are unchanged");
  } else if (f.i_ < u) {
    vp_assert(f.at(f.i_) == 0, "padding is zero");
  }
}
template <typename T>
void file_at() {
  any_file f{sizeof(T)};
  auto const pos = vp::any_size<std::uint64_t>("pos", 0, f.n_ - sizeof(T), 120);
  alignas(8) std::uint8_t v[sizeof(T)];
  for (auto& c : v) {
    c = vp::any<std::uint8_t>("byte");
  }
  T val;
  std::memcpy(&val, v, sizeof(T));
  vp_index(pos);
  try {
    f->write(pos, val);
  } catch (cista_exception const&) {
    vp_assert(vp_symbolic(), "no failure without an i/o error");
    return;
  }
  vp_assert(f.length() == f.n_ && f->size_ == f.n_, "the size stays");
  for (unsigned k = 0; k != sizeof(T); ++k) {
    vp_assert(f.at(pos + k) == v[k], "the bytes of the value");
  }
  if (f.i_ < f.n_ && (f.i_ < pos || f.i_ >= pos + sizeof(T))) {
    vp_assert(f.at(f.i_) == f.old_, "no other byte changes");
  }
}
}  // namespace
OBLIGATION(file_append_0) { file_append<0>(); }
OBLIGATION(file_append_1) { file_append<1>(); }
OBLIGATION(file_append_4) { file_append<4>(); }
OBLIGATION(file_append_8) { file_append<8>(); }
OBLIGATION(file_append_16) { file_append<16>(); }
OBLIGATION(file_append_64) { file_append<64>(); }
OBLIGATION(file_at_u8) { file_at<std::uint8_t>(); }
OBLIGATION(file_at_u32) { file_at<std::uint32_t>(); }
OBLIGATION(file_at_u64) { file_at<std::uint64_t>(); }
OBLIGATION(file_at_struct) { file_at<twelve>(); }
OBLIGATION(file_moves) {
  any_file f;
  auto* h = f->f_;
  file g{std::move(*f)};
  vp_assert(g.f_ == h && g.size_ == f.n_ && f->f_ == nullptr && f->size_ == 0, "moved");
  *f = std::move(g);
  vp_assert(f->f_ == h && f->size_ == f.n_ && g.f_ == nullptr && g.size_ == 0, "moved back");
}

// --------------------------------------------------------------- the targets agree (bounded)
namespace {
struct scratch {
  scratch() {
    char t[] = "/tmp/vp-p05-XXXXXX";
    dir_ = mkdtemp(t);
  }
  ~scratch() {
    for (auto const& f : files_) {
      unlink(f.c_str());
    }
    rmdir(dir_.c_str());
  }
  char const* file(char const* n) {
    files_.push_back(dir_ + "/" + n);
    return files_.back().c_str();
  }
  std::string dir_;
  std::vector<std::string> files_;
};
inline std::vector<std::uint8_t> content_of(char const* path) {
  std::vector<std::uint8_t> v;
  auto* f = std::fopen(path, "rb");
  vp_assert(f != nullptr, "there");
  for (int c; (c = std::fgetc(f)) != EOF;) {
    v.push_back(static_cast<std::uint8_t>(c));
  }
  std::fclose(f);
  return v;
}
}  // namespace
NATIVE(targets_agree) {
  scratch s;
  std::string const pf = s.file("file"), pm = s.file("mmap");
  std::vector<std::uint8_t> want;
  {
    buf<byte_buf> b;
    buf<cista::mmap> m{cista::mmap{pm.c_str()}};
    file f{pf.c_str(), "w+"};
    auto const steps = vp::any_in<unsigned>("steps", 1, 12);
    for (unsigned st = 0; st != steps; ++st) {
      auto const op = vp::any_in<unsigned>("op", 0, 9);
      if (op < 7 || want.empty()) {
        std::size_t const al[] = {0, 1, 2, 4, 8, 16};
        auto const a = al[vp::any_in<unsigned>("align", 0, 5)];
        auto const big = vp::any_in<unsigned>("big", 0, 30) == 0;
        std::size_t n = big ? 500000 + vp::any_in<unsigned>("n", 0, 600000) : vp::any_in<unsigned>("n", 0, 40);
        if (n == 0 && want.empty()) {
          n = 1;
        }
        std::vector<std::uint8_t> blk(n + 1);
        auto x = vp::any<std::uint8_t>("x");
        for (auto& c : blk) {
          c = x = static_cast<std::uint8_t>(x * 5 + 1);
        }
        auto const at = a < 2 ? want.size() : (want.size() + a - 1) / a * a;
        auto const p0 = b.write(blk.data(), n, a);
        auto const p1 = m.write(blk.data(), n, a);
        auto const p2 = f.write(blk.data(), n, a);
        vp_assert(p0 == static_cast<offset_t>(at) && p1 == p0 && p2 == p0, "the same position");
        want.resize(at);
        want.insert(want.end(), blk.begin(), blk.begin() + static_cast<std::ptrdiff_t>(n));
      } else if (want.size() >= 8) {
        auto const pos = vp::any_in<std::size_t>("pos", 0, 1u << 20) % (want.size() - 7);
        auto const v = vp::any<std::uint64_t>("v");
        b.write(pos, v);
        m.write(pos, v);
        f.write(pos, v);
        std::memcpy(want.data() + pos, &v, 8);
      }
      vp_assert(b.buf_ == want, "the buffer holds what was written");
      vp_assert(m.size() == want.size() && std::memcmp(m.base(), want.data(), want.size()) == 0, "the mapping holds what was written");
      auto const from = vp::any_in<std::size_t>("from", 0, 1u << 20) % want.size();
      auto const h = hash(std::string_view{reinterpret_cast<char const*>(want.data()) + from, want.size() - from});
      vp_assert(b.checksum(static_cast<offset_t>(from)) == h && m.checksum(static_cast<offset_t>(from)) == h &&
                    f.checksum(static_cast<offset_t>(from)) == h,
                "the checksum is the hash of the range");
    }
  }
  vp_assert(content_of(pf.c_str()) == want && content_of(pm.c_str()) == want, "the files hold what was written");
  file f{pf.c_str(), "r"};
  auto const c = f.content();
  vp_assert(c.size() == want.size() && std::memcmp(c.data(), want.data(), want.size()) == 0, "read back");
}
