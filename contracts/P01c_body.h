// included once per flavour (FLAVOUR = offset or raw)
namespace of_FLAVOUR {
namespace c = cista::FLAVOUR;
using ::same;
struct leaf {
  std::uint32_t x_{0};
  c::string s_;
  c::ptr<std::uint32_t> p_{nullptr};
};
enum class kind : std::uint8_t { A, B, C };
using key = cista::strong<std::uint32_t, struct key_>;
struct node {
  c::ptr<node> next_{nullptr};
  std::uint16_t v_{0};
  c::vector<c::ptr<node>> others_;
};
struct rich {
  std::uint8_t b_{0};
  std::uint64_t n_{0};
  double d_{0};
  float f_{0};
  bool t_{false};
  kind k_{kind::A};
  key id_{0U};
  std::chrono::duration<std::int64_t, std::milli> dur_{0};
  c::pair<std::uint8_t, c::string> sp_;
  c::pair<c::string, std::int16_t> p_;
  cista::tuple<std::uint8_t, c::string, std::uint64_t> tu_;
  cista::array<c::string, 2> ar_;
  cista::array<std::uint16_t, 3> nums_{};
  c::vector<std::uint32_t> v32_;
  c::vector<std::uint64_t> v64_;
  c::vector<std::uint8_t> v8_;
  c::vector<c::vector<std::uint16_t>> vv_;
  c::string s_, s2_;
};
struct rich4 {  // without a type hash
  c::cstring cs_, cs2_;
  std::pair<std::uint8_t, c::string> sp_;
  c::vector<c::cstring> vs_;
};
struct rich2 {
  c::u16string w_;
  c::u32string w4_;
  c::unique_ptr<std::uint32_t> u_;
  c::ptr<std::uint32_t> up_{nullptr};
  c::unique_ptr<leaf> ul_;
  c::ptr<leaf> lp_{nullptr};
  cista::optional<c::string> os_;
  cista::optional<std::uint32_t> on_;
  c::variant<std::uint32_t, c::string, c::vector<std::uint32_t>, std::uint64_t> va_;
  cista::bitset<70> bs_;
  c::bitvec bv_;
  c::hash_map<c::string, std::uint32_t> m_;
  c::hash_set<std::uint64_t> h_;
  c::hash_map<std::uint32_t, c::vector<c::string>> mv_;
  c::vecvec<std::uint32_t, std::uint16_t> ve_;
  c::vecvec<std::uint32_t, char> vc_;
};
struct rich3 {
  c::indexed_vector<std::uint32_t> iv_;
  c::ptr<std::uint32_t> ip_{nullptr}, iq_{nullptr};
  c::indexed_vector<node> ns_;
  c::ptr<node> first_{nullptr};
  c::vector_map<key, std::uint32_t> vm_;
  c::fws_multimap<std::uint32_t, std::uint32_t> fm_;
  c::nvec<std::uint32_t, std::uint16_t, 2> nv_;
  c::mutable_fws_multimap<std::uint32_t, std::uint32_t> mm_;
  c::vector<leaf> ls_;
  c::ptr<void> null_{nullptr};
};

inline c::string text(char const* n) {
  auto const len = vp::any_in<unsigned>(n, 0, 40);
  std::string s;
  for (unsigned i = 0; i != len; ++i) {
    s += static_cast<char>('a' + (i * 7 + len) % 26);
  }
  return c::string{s};
}
inline void make(rich& x) {
  x.b_ = vp::any<std::uint8_t>("b");
  x.n_ = vp::any<std::uint64_t>("n");
  x.d_ = static_cast<double>(vp::any<std::int32_t>("d")) / 7;
  x.f_ = static_cast<float>(vp::any<std::int32_t>("f")) / 3;
  x.t_ = vp::any<bool>("t");
  x.k_ = static_cast<kind>(vp::any_in<std::uint8_t>("kind", 0, 2));
  x.id_ = key{vp::any<std::uint32_t>("id")};
  x.dur_ = std::chrono::duration<std::int64_t, std::milli>{vp::any<std::int64_t>("dur")};
  x.sp_ = {vp::any<std::uint8_t>("first"), text("text")};
  x.p_ = {text("text"), vp::any<std::int16_t>("second")};
  cista::get<0>(x.tu_) = vp::any<std::uint8_t>("t0");
  cista::get<1>(x.tu_) = text("text");
  cista::get<2>(x.tu_) = vp::any<std::uint64_t>("t2");
  x.ar_[0] = text("text");
  x.ar_[1] = text("text");
  x.nums_ = {vp::any<std::uint16_t>("x"), 2, vp::any<std::uint16_t>("y")};
  auto const k = vp::any_in<unsigned>("elements", 0, 6);
  for (unsigned i = 0; i != k; ++i) {
    x.v32_.push_back(vp::any<std::uint32_t>("e"));
    x.v64_.push_back(vp::any<std::uint64_t>("e"));
    x.v8_.push_back(vp::any<std::uint8_t>("e"));
    x.vv_.emplace_back();
    for (unsigned j = 0; j < vp::any_in<unsigned>("inner", 0, 4); ++j) {
      x.vv_.back().push_back(vp::any<std::uint16_t>("e"));
    }
  }
  if (vp::any<bool>("cleared")) {
    x.v64_.clear();  // capacity without elements
  }
  x.s_ = text("text");
  x.s2_ = text("text");
}
inline void make(rich4& x) {
  auto const a = std::string(vp::any_in<unsigned>("length", 0, 40), 'q'), b = std::string(vp::any_in<unsigned>("length", 0, 40), 'r');
  x.cs_ = c::cstring{std::string_view{a}, c::cstring::owning};
  x.cs2_ = vp::any<bool>("own") ? c::cstring{std::string_view{b}, c::cstring::owning} : c::cstring{std::string_view{keep(b)}, c::cstring::non_owning};
  x.sp_ = {vp::any<std::uint8_t>("first"), text("text")};
  for (unsigned i = 0; i < vp::any_in<unsigned>("elements", 0, 4); ++i) {
    x.vs_.emplace_back(std::string_view{vp::any<bool>("which") ? a : b}, c::cstring::owning);
  }
}
inline void make(rich2& x) {
  x.w_ = std::u16string(vp::any_in<unsigned>("wide", 0, 20), u'\u1234');
  x.w4_ = std::u32string(vp::any_in<unsigned>("wide", 0, 20), U'\u1234');
  if (vp::any<bool>("u")) {
    x.u_ = c::make_unique<std::uint32_t>(vp::any<std::uint32_t>("v"));
    if (vp::any<bool>("up")) {
      x.up_ = x.u_.get();
    }
  }
  if (vp::any<bool>("l")) {
    x.ul_ = c::make_unique<leaf>();
    x.ul_->x_ = vp::any<std::uint32_t>("v");
    x.ul_->s_ = text("text");
    x.ul_->p_ = x.u_.get();
    x.lp_ = x.ul_.get();
  }
  if (vp::any<bool>("os")) {
    x.os_ = text("text");
  }
  if (vp::any<bool>("on")) {
    x.on_ = vp::any<std::uint32_t>("v");
  }
  auto const which = vp::any_in<unsigned>("which", 0, 3);
  if (which == 0) {
    x.va_ = vp::any<std::uint32_t>("v");
  } else if (which == 1) {
    x.va_ = text("text");
  } else if (which == 2) {
    x.va_ = c::vector<std::uint32_t>{1U, 2U, vp::any<std::uint32_t>("v")};
  } else {
    x.va_ = vp::any<std::uint64_t>("v");
  }
  auto const bits = vp::any_in<unsigned>("bits", 0, 200);
  x.bv_.resize(bits);
  for (unsigned i = 0; i < bits; i += vp::any_in<unsigned>("step", 1, 9)) {
    x.bv_.set(i);
    x.bs_.set(i % 70);
  }
  auto const k = vp::any_in<unsigned>("entries", 0, 20);
  for (unsigned i = 0; i != k; ++i) {
    x.m_[c::string{std::to_string(i) + std::string(i * 2, 'k')}] = vp::any<std::uint32_t>("v");
    x.h_.emplace(vp::any<std::uint64_t>("v"));
    x.mv_[i * 3].push_back(text("text"));
    auto const b = vp::any_in<unsigned>("bucket", 0, 3);
    std::vector<std::uint16_t> bucket(b, static_cast<std::uint16_t>(i));
    x.ve_.emplace_back(bucket);
    x.vc_.emplace_back(std::string(b, 'v'));
  }
  if (vp::any<bool>("erase")) {
    for (unsigned i = 0; i < k; i += 2) {
      x.mv_.erase(i * 3);
    }
  }
}
inline void make(rich3& x) {
  auto const k = vp::any_in<unsigned>("elements", 0, 6);
  for (unsigned i = 0; i != k; ++i) {
    x.iv_.push_back(vp::any<std::uint32_t>("e"));
    x.ns_.emplace_back();
    x.ns_.back().v_ = static_cast<std::uint16_t>(i);
    x.vm_.push_back(vp::any<std::uint32_t>("e"));
    for (unsigned j = 0; j < vp::any_in<unsigned>("values", 0, 3); ++j) {
      x.fm_.push_back(j + i);
    }
    x.fm_.finish_key();
    auto inner = std::vector<std::vector<std::uint16_t>>{};
    for (unsigned j = 0; j < vp::any_in<unsigned>("inner", 0, 3); ++j) {
      inner.emplace_back(std::vector<std::uint16_t>(j, static_cast<std::uint16_t>(i)));
    }
    x.nv_.emplace_back(inner);
    for (unsigned j = 0; j < vp::any_in<unsigned>("values", 0, 5); ++j) {
      x.mm_[vp::any_in<unsigned>("bucket", 0, i)].push_back(j * 5);
    }
    x.ls_.emplace_back();
    x.ls_.back().s_ = text("text");
    x.ls_.back().x_ = i;
  }
  if (k != 0) {
    x.ip_ = &x.iv_[vp::any_in<unsigned>("target", 0, k - 1)];
    x.iq_ = &x.iv_[vp::any_in<unsigned>("target", 0, k - 1)];
    x.first_ = &x.ns_[vp::any_in<unsigned>("target", 0, k - 1)];
    for (unsigned i = 0; i != k; ++i) {
      x.ns_[i].next_ = &x.ns_[vp::any_in<unsigned>("target", 0, k - 1)];
      x.ns_[i].others_.emplace_back(static_cast<node*>(&x.ns_[vp::any_in<unsigned>("target", 0, k - 1)]));
      x.ls_[i].p_ = vp::any<bool>("p") ? static_cast<std::uint32_t*>(&x.iv_[i]) : nullptr;
    }
  }
}
inline void same(leaf const& a, leaf const& b) {
  same(a.x_, b.x_);
  same(a.s_, b.s_);
}
inline void same(rich const& a, rich const& b) {
  same(a.b_, b.b_);
  same(a.n_, b.n_);
  vp_assert(std::memcmp(&a.d_, &b.d_, 8) == 0 && std::memcmp(&a.f_, &b.f_, 4) == 0, "same floating point number");
  same(a.t_, b.t_);
  same(a.k_, b.k_);
  vp_assert(a.id_ == b.id_, "same index");
  vp_assert(a.dur_ == b.dur_, "same duration");
  same(a.sp_.first, b.sp_.first);
  same(a.sp_.second, b.sp_.second);
  same(a.p_.first, b.p_.first);
  same(a.p_.second, b.p_.second);
  same(cista::get<0>(a.tu_), cista::get<0>(b.tu_));
  same(cista::get<1>(a.tu_), cista::get<1>(b.tu_));
  same(cista::get<2>(a.tu_), cista::get<2>(b.tu_));
  for (unsigned i = 0; i != 2; ++i) {
    same(a.ar_[i], b.ar_[i]);
  }
  for (unsigned i = 0; i != 3; ++i) {
    same(a.nums_[i], b.nums_[i]);
  }
  same(a.v32_, b.v32_);
  same(a.v64_, b.v64_);
  same(a.v8_, b.v8_);
  same(a.vv_, b.vv_);
  same(a.s_, b.s_);
  same(a.s2_, b.s2_);
}
inline void same(rich4 const& a, rich4 const& b) {
  vp_assert(a.cs_.view() == b.cs_.view() && b.cs_.data()[b.cs_.size()] == 0, "same text");
  vp_assert(a.cs2_.view() == b.cs2_.view() && b.cs2_.data()[b.cs2_.size()] == 0, "same text");
  same(a.sp_.first, b.sp_.first);
  same(a.sp_.second, b.sp_.second);
  vp_assert(a.vs_.size() == b.vs_.size(), "same size");
  for (unsigned i = 0; i != a.vs_.size(); ++i) {
    vp_assert(a.vs_[i].view() == b.vs_[i].view() && b.vs_[i].data()[b.vs_[i].size()] == 0, "same text");
  }
}
inline void same(rich2 const& a, rich2 const& b) {
  same(a.w_, b.w_);
  same(a.w4_, b.w4_);
  vp_assert((a.u_.get() == nullptr) == (b.u_.get() == nullptr), "same object");
  if (b.u_.get() != nullptr) {
    same(*a.u_, *b.u_);
  }
  vp_assert((a.up_ == nullptr) == (b.up_ == nullptr) && (b.up_ == nullptr || static_cast<std::uint32_t*>(b.up_) == b.u_.get()), "the pointer denotes the corresponding object");
  vp_assert((a.ul_.get() == nullptr) == (b.ul_.get() == nullptr), "same object");
  if (b.ul_.get() != nullptr) {
    same(*a.ul_, *b.ul_);
    vp_assert(static_cast<std::uint32_t*>(b.ul_->p_) == b.u_.get(), "the pointer denotes the corresponding object");
  }
  vp_assert(static_cast<leaf*>(b.lp_) == b.ul_.get(), "the pointer denotes the corresponding object");
  vp_assert(a.os_.has_value() == b.os_.has_value() && a.on_.has_value() == b.on_.has_value(), "engaged or not");
  if (b.os_.has_value()) {
    same(*a.os_, *b.os_);
  }
  if (b.on_.has_value()) {
    same(*a.on_, *b.on_);
  }
  vp_assert(a.va_.index() == b.va_.index(), "same alternative");
  if (a.va_.index() == 0) {
    same(cista::get<std::uint32_t>(a.va_), cista::get<std::uint32_t>(b.va_));
  } else if (a.va_.index() == 1) {
    same(cista::get<c::string>(a.va_), cista::get<c::string>(b.va_));
  } else if (a.va_.index() == 2) {
    same(cista::get<c::vector<std::uint32_t>>(a.va_), cista::get<c::vector<std::uint32_t>>(b.va_));
  } else {
    same(cista::get<std::uint64_t>(a.va_), cista::get<std::uint64_t>(b.va_));
  }
  vp_assert(a.bs_ == b.bs_, "same bits");
  vp_assert(a.bv_.size() == b.bv_.size(), "same length");
  for (unsigned i = 0; i != a.bv_.size(); ++i) {
    vp_assert(a.bv_.test(i) == b.bv_.test(i), "same bits");
  }
  vp_assert(a.m_.size() == b.m_.size() && a.h_.size() == b.h_.size() && a.mv_.size() == b.mv_.size(), "same number of entries");
  for (auto const& e : a.m_) {
    auto const it = b.m_.find(e.first);
    vp_assert(it != b.m_.end(), "the key is found");
    same(e.second, it->second);
  }
  for (auto const& e : a.h_) {
    vp_assert(b.h_.find(e) != b.h_.end(), "the key is found");
  }
  vp_assert(b.m_.find(c::string{"missing"}) == b.m_.end(), "no other key is found");
  for (auto const& e : a.mv_) {
    auto const it = b.mv_.find(e.first);
    vp_assert(it != b.mv_.end(), "the key is found");
    same(e.second, it->second);
  }
  std::uint64_t n = 0;
  for (auto const& e : b.m_) {
    (void)e;
    ++n;
  }
  vp_assert(n == b.m_.size(), "as many entries as the size says");
  buckets(a.ve_, b.ve_);
  buckets(a.vc_, b.vc_);
}
inline void same(rich3 const& a, rich3 const& b) {
  same(a.iv_, b.iv_);
  auto const at = [](auto const& v, auto const* p) { return p - &v[0]; };
  vp_assert((a.ip_ == nullptr) == (b.ip_ == nullptr), "same pointer");
  if (b.ip_ != nullptr) {
    vp_assert(at(a.iv_, static_cast<std::uint32_t const*>(a.ip_)) == at(b.iv_, static_cast<std::uint32_t const*>(b.ip_)), "the pointer denotes the corresponding element");
    vp_assert(at(a.iv_, static_cast<std::uint32_t const*>(a.iq_)) == at(b.iv_, static_cast<std::uint32_t const*>(b.iq_)), "the pointer denotes the corresponding element");
    vp_assert(at(a.ns_, static_cast<node const*>(a.first_)) == at(b.ns_, static_cast<node const*>(b.first_)), "the pointer denotes the corresponding element");
  }
  vp_assert(a.ns_.size() == b.ns_.size(), "same size");
  for (unsigned i = 0; i != a.ns_.size(); ++i) {
    vp_assert(a.ns_[i].v_ == b.ns_[i].v_, "same node");
    vp_assert(at(a.ns_, static_cast<node const*>(a.ns_[i].next_)) == at(b.ns_, static_cast<node const*>(b.ns_[i].next_)), "the pointer denotes the corresponding element");
    vp_assert(b.ns_[i].others_.size() == 1, "same pointers");
    vp_assert(at(a.ns_, static_cast<node const*>(a.ns_[i].others_[0])) == at(b.ns_, static_cast<node const*>(b.ns_[i].others_[0])), "the pointer denotes the corresponding element");
    vp_assert((a.ls_[i].p_ == nullptr) == (b.ls_[i].p_ == nullptr), "same pointer");
    vp_assert(b.ls_[i].p_ == nullptr || static_cast<std::uint32_t const*>(b.ls_[i].p_) == &b.iv_[i], "the pointer denotes the corresponding element");
  }
  vp_assert(a.vm_.size() == b.vm_.size(), "same size");
  for (unsigned i = 0; i != a.vm_.size(); ++i) {
    same(a.vm_[key{i}], b.vm_[key{i}]);
  }
  vp_assert(a.fm_.index_.size() == b.fm_.index_.size() && a.fm_.data_.size() == b.fm_.data_.size(), "same size");
  same(a.fm_.index_, b.fm_.index_);
  same(a.fm_.data_, b.fm_.data_);
  vp_assert(a.nv_.size() == b.nv_.size(), "same size");
  for (unsigned i = 0; i != a.nv_.size(); ++i) {
    vp_assert(a.nv_.size(i) == b.nv_.size(i), "same size");
    for (unsigned j = 0; j != a.nv_.size(i); ++j) {
      vp_assert(a.nv_.size(i, j) == b.nv_.size(i, j), "same size");
      for (unsigned k = 0; k != a.nv_.size(i, j); ++k) {
        same(a.nv_.at(i, j)[k], b.nv_.at(i, j)[k]);
      }
    }
  }
  buckets(a.mm_, b.mm_);
  same(a.ls_, b.ls_);
}
template <typename T, cista::mode W, cista::mode R = W>
void whole() {
  static constexpr bool relocatable = std::is_same_v<c::ptr<int>, cista::offset_ptr<int>>;
  T x{};
  make(x);
  auto b = cista::serialize<W>(x);
  auto* const p = cista::deserialize<T, R>(b);
  same(x, *p);
  // a file and a buffer hold the same bytes
  if constexpr (relocatable) {
    // the bytes mean the same somewhere else
    auto const* const first = reinterpret_cast<std::uint8_t const*>(p);
    auto const n = static_cast<std::uint64_t>(b.data() + b.size() - first);
    void* other = nullptr;
    vp_assert(posix_memalign(&other, 16, n + 64) == 0, "memory");
    auto* const q = static_cast<std::uint8_t*>(other) + 16 * vp::any_in<unsigned>("shift", 0, 3);
    std::memcpy(q, first, n);
    std::fill(b.begin(), b.end(), std::uint8_t{0xEE});
    same(x, *reinterpret_cast<T const*>(q));
    std::free(other);
  }
}
}  // namespace of_FLAVOUR
