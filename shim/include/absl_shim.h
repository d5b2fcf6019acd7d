// A small, self-contained re-implementation of the subset of Abseil that
// google/autofdo uses.  The sandbox's Abseil (20220623) is too old for the
// pinned tree, so the monitoring builds use this instead.  Semantics follow the
// documented Abseil contracts; hash containers are real open-addressing tables
// whose iteration order is perturbed by the environment variable
// VSHIM_HASH_SEED, so that order dependence becomes observable, and which move
// their elements on rehash, so that stale references become ASan reports.
#ifndef VSHIM_ABSL_SHIM_H_
#define VSHIM_ABSL_SHIM_H_

#include <algorithm>
#include <array>
#include <cassert>
#include <cctype>
#include <cerrno>
#include <cinttypes>
#include <cmath>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <functional>
#include <initializer_list>
#include <iomanip>
#include <iostream>
#include <iterator>
#include <limits>
#include <list>
#include <map>
#include <memory>
#include <mutex>
#include <condition_variable>
#include <chrono>
#include <new>
#include <numeric>
#include <optional>
#include <ostream>
#include <set>
#include <sstream>
#include <string>
#include <string_view>
#include <system_error>
#include <tuple>
#include <type_traits>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <variant>
#include <vector>

// ---------------------------------------------------------------- attributes
#define ABSL_ATTRIBUTE_LIFETIME_BOUND
#define ABSL_ATTRIBUTE_UNUSED __attribute__((unused))
#define ABSL_ATTRIBUTE_ALWAYS_INLINE __attribute__((always_inline))
#define ABSL_ATTRIBUTE_NOINLINE __attribute__((noinline))
#define ABSL_ATTRIBUTE_NORETURN __attribute__((noreturn))
#define ABSL_ATTRIBUTE_PACKED __attribute__((__packed__))
#define ABSL_ATTRIBUTE_WEAK __attribute__((weak))
#define ABSL_ATTRIBUTE_TRIVIAL_ABI
#define ABSL_ATTRIBUTE_VIEW
#define ABSL_MUST_USE_RESULT
#define ABSL_CONST_INIT
#define ABSL_DEPRECATED(x)
#define ABSL_FALLTHROUGH_INTENDED [[fallthrough]]
#define ABSL_PREDICT_TRUE(x) (__builtin_expect(false || (x), true))
#define ABSL_PREDICT_FALSE(x) (__builtin_expect(false || (x), false))
#define ABSL_ARRAYSIZE(a) (sizeof(a) / sizeof((a)[0]))
#define ABSL_LOCKS_EXCLUDED(...)
#define ABSL_GUARDED_BY(x)
#define ABSL_PT_GUARDED_BY(x)
#define ABSL_EXCLUSIVE_LOCKS_REQUIRED(...)
#define ABSL_SHARED_LOCKS_REQUIRED(...)
#define ABSL_EXCLUSIVE_LOCK_FUNCTION(...)
#define ABSL_UNLOCK_FUNCTION(...)
#define ABSL_NO_THREAD_SAFETY_ANALYSIS
#define ABSL_LOCK_RETURNED(x)
#define ABSL_INTERNAL_LOG_UNUSED

namespace absl {

template <typename T> using Nonnull = T;
template <typename T> using Nullable = T;
template <typename T> using NullabilityUnknown = T;

using std::string_view;
using std::optional;
using std::nullopt;
using std::make_optional;
using std::variant;
using std::make_unique;
using std::get;
using std::holds_alternative;
using std::get_if;
using std::visit;
using std::monostate;
template <typename T, typename U = T> using remove_cvref_t = std::remove_cv_t<std::remove_reference_t<T>>;
template <bool B, class T = void> using enable_if_t = std::enable_if_t<B, T>;
template <class T> using decay_t = std::decay_t<T>;
inline string_view NullSafeStringView(const char *p) { return p ? string_view(p) : string_view(); }
inline string_view ClippedSubstr(string_view s, size_t pos, size_t n = string_view::npos) {
  return s.substr(std::min(pos, s.size()), n);
}

template <typename To> constexpr To implicit_cast(std::common_type_t<To> to) { return to; }
template <class To, class From> To bit_cast(const From &f) {
  static_assert(sizeof(To) == sizeof(From));
  To t; memcpy(&t, &f, sizeof(t)); return t;
}
template <typename T> std::unique_ptr<T> WrapUnique(T *p) { return std::unique_ptr<T>(p); }

// ---------------------------------------------------------------- span
template <typename T>
class Span {
  template <class C> using DataT = decltype(std::declval<C &>().data());
 public:
  using element_type = T;
  using value_type = std::remove_cv_t<T>;
  using pointer = T *; using const_pointer = const T *;
  using reference = T &; using const_reference = const T &;
  using iterator = pointer; using const_iterator = const_pointer;
  using reverse_iterator = std::reverse_iterator<iterator>;
  using const_reverse_iterator = std::reverse_iterator<const_iterator>;
  using size_type = size_t; using difference_type = ptrdiff_t;
  static constexpr size_type npos = ~size_type{0};
  constexpr Span() : p_(nullptr), n_(0) {}
  constexpr Span(pointer p, size_type n) : p_(p), n_(n) {}
  template <size_t N> constexpr Span(T (&a)[N]) : p_(a), n_(N) {}
  template <typename V, typename = std::enable_if_t<
      std::is_convertible_v<decltype(std::declval<V &>().data()), pointer> &&
      !std::is_same_v<std::decay_t<V>, Span> &&
      !std::is_const_v<T>>, typename = decltype(std::declval<V &>().size())>
  constexpr explicit Span(V &v) : p_(v.data()), n_(v.size()) {}
  template <typename V, typename = std::enable_if_t<
      std::is_convertible_v<decltype(std::declval<const V &>().data()), pointer> &&
      !std::is_same_v<std::decay_t<V>, Span> &&
      std::is_const_v<T>>, typename = decltype(std::declval<const V &>().size()), typename = void>
  constexpr Span(const V &v) : p_(v.data()), n_(v.size()) {}
  template <typename LazyT = T, typename = std::enable_if_t<std::is_const_v<LazyT>>>
  Span(std::initializer_list<value_type> v) : p_(v.begin()), n_(v.size()) {}
  constexpr pointer data() const { return p_; }
  constexpr size_type size() const { return n_; }
  constexpr size_type length() const { return n_; }
  constexpr bool empty() const { return n_ == 0; }
  constexpr reference operator[](size_type i) const {
    if (i >= n_) __builtin_trap();
    return p_[i];
  }
  constexpr reference at(size_type i) const { if (i >= n_) abort(); return p_[i]; }
  constexpr reference front() const { if (!n_) __builtin_trap(); return p_[0]; }
  constexpr reference back() const { if (!n_) __builtin_trap(); return p_[n_ - 1]; }
  constexpr iterator begin() const { return p_; }
  constexpr iterator end() const { return p_ + n_; }
  constexpr const_iterator cbegin() const { return p_; }
  constexpr const_iterator cend() const { return p_ + n_; }
  constexpr reverse_iterator rbegin() const { return reverse_iterator(end()); }
  constexpr reverse_iterator rend() const { return reverse_iterator(begin()); }
  void remove_prefix(size_type n) { if (n > n_) abort(); p_ += n; n_ -= n; }
  void remove_suffix(size_type n) { if (n > n_) abort(); n_ -= n; }
  constexpr Span subspan(size_type pos = 0, size_type len = npos) const {
    if (pos > n_) abort();
    return Span(p_ + pos, std::min(n_ - pos, len));
  }
  constexpr Span first(size_type n) const { if (n > n_) abort(); return Span(p_, n); }
  constexpr Span last(size_type n) const { if (n > n_) abort(); return Span(p_ + n_ - n, n); }
  friend bool operator==(Span a, Span b) { return std::equal(a.begin(), a.end(), b.begin(), b.end()); }
  friend bool operator!=(Span a, Span b) { return !(a == b); }
 private:
  pointer p_; size_type n_;
};
template <class C> auto MakeSpan(C &c) { return Span<std::remove_reference_t<decltype(*c.data())>>(c.data(), c.size()); }
template <class T> Span<T> MakeSpan(T *p, size_t n) { return Span<T>(p, n); }
template <class C> auto MakeConstSpan(const C &c) { return Span<const std::remove_reference_t<decltype(*c.data())>>(c.data(), c.size()); }
template <class T> Span<const T> MakeConstSpan(T *p, size_t n) { return Span<const T>(p, n); }
template <class T> Span<const T> MakeConstSpan(T *b, T *e) { return Span<const T>(b, e - b); }

// ---------------------------------------------------------------- function_ref
template <typename Sig> class FunctionRef;
template <typename R, typename... A>
class FunctionRef<R(A...)> {
  union { void *obj; void (*fn)(); } p_;
  R (*inv_)(decltype(p_), A...);
 public:
  template <typename F, typename = std::enable_if_t<!std::is_same_v<std::decay_t<F>, FunctionRef> &&
      std::is_invocable_v<F &, A...> && !std::is_function_v<std::remove_pointer_t<std::decay_t<F>>>>>
  FunctionRef(const F &f) {
    p_.obj = const_cast<void *>(static_cast<const void *>(&f));
    inv_ = [](decltype(p_) p, A... a) -> R {
      return static_cast<R>((*const_cast<std::remove_const_t<F> *>(static_cast<const F *>(p.obj)))(std::forward<A>(a)...));
    };
  }
  template <typename F, typename = std::enable_if_t<std::is_function_v<F>>, typename = void>
  FunctionRef(F *f) {
    p_.fn = reinterpret_cast<void (*)()>(f);
    inv_ = [](decltype(p_) p, A... a) -> R {
      return static_cast<R>(reinterpret_cast<F *>(p.fn)(std::forward<A>(a)...));
    };
  }
  R operator()(A... a) const { return inv_(p_, std::forward<A>(a)...); }
};

// any_invocable: move-only std::function with const/&&/noexcept qualifiers.
namespace shim_internal {
template <class R, class... A>
class AnyInvBase {
 protected:
  struct B { virtual ~B() {} virtual R Call(A... a) = 0; };
  template <class F> struct I : B {
    F f; template <class G> explicit I(G &&g) : f(std::forward<G>(g)) {}
    R Call(A... a) override { return static_cast<R>(std::invoke(f, std::forward<A>(a)...)); }
  };
  std::unique_ptr<B> b_;
 public:
  AnyInvBase() = default; AnyInvBase(std::nullptr_t) {}
  AnyInvBase(AnyInvBase &&) = default; AnyInvBase &operator=(AnyInvBase &&) = default;
  explicit operator bool() const { return b_ != nullptr; }
  friend bool operator==(const AnyInvBase &a, std::nullptr_t) { return !a.b_; }
  friend bool operator!=(const AnyInvBase &a, std::nullptr_t) { return !!a.b_; }
 protected:
  template <class F> void Set(F &&f) { b_ = std::make_unique<I<std::decay_t<F>>>(std::forward<F>(f)); }
};
}  // namespace shim_internal
template <class Sig> class AnyInvocable;
#define VSHIM_ANYINV(QUAL)                                                                       \
  template <class R, class... A>                                                                 \
  class AnyInvocable<R(A...) QUAL> : public shim_internal::AnyInvBase<R, A...> {                 \
   public:                                                                                       \
    AnyInvocable() = default; AnyInvocable(std::nullptr_t) {}                                    \
    AnyInvocable(AnyInvocable &&) = default; AnyInvocable &operator=(AnyInvocable &&) = default; \
    template <class F, class = std::enable_if_t<!std::is_same_v<std::decay_t<F>, AnyInvocable> && \
        std::is_invocable_v<std::decay_t<F> &, A...>>>                                           \
    AnyInvocable(F &&f) { this->Set(std::forward<F>(f)); }                                       \
    R operator()(A... a) QUAL { return this->b_->Call(std::forward<A>(a)...); }                  \
  };
VSHIM_ANYINV()
VSHIM_ANYINV(const)
VSHIM_ANYINV(&&)
#undef VSHIM_ANYINV

template <class... Ts> struct Overload : Ts... { explicit constexpr Overload(Ts... ts) : Ts(std::move(ts))... {} using Ts::operator()...; };
template <class... Ts> Overload(Ts...) -> Overload<Ts...>;

// ---------------------------------------------------------------- strings
namespace shim_internal {
template <class T, class = void> struct HasStringify : std::false_type {};
struct AnySink {
  std::string *s;
  void Append(string_view v) { s->append(v.data(), v.size()); }
  void Append(size_t n, char c) { s->append(n, c); }
  bool PutPaddedString(string_view v, int, int, bool) { Append(v); return true; }
};
template <class T> struct HasStringify<T, std::void_t<decltype(AbslStringify(std::declval<AnySink &>(), std::declval<const T &>()))>> : std::true_type {};
}  // namespace shim_internal

enum PadSpec : uint8_t {
  kNoPad = 1, kZeroPad2, kZeroPad3, kZeroPad4, kZeroPad5, kZeroPad6, kZeroPad7, kZeroPad8, kZeroPad9, kZeroPad10,
  kZeroPad11, kZeroPad12, kZeroPad13, kZeroPad14, kZeroPad15, kZeroPad16,
  kSpacePad2 = kZeroPad2 + 64, kSpacePad3, kSpacePad4, kSpacePad5, kSpacePad6, kSpacePad7, kSpacePad8,
};
struct Hex {
  uint64_t value; uint8_t width; char fill;
  template <class I, class = std::enable_if_t<std::is_integral_v<I>>>
  explicit Hex(I v, PadSpec s = kNoPad)
      : value(static_cast<uint64_t>(static_cast<std::make_unsigned_t<I>>(v))),
        width(s == kNoPad ? 1 : s >= kSpacePad2 ? s - kSpacePad2 + 2 : s - kZeroPad2 + 2), fill(s >= kSpacePad2 ? ' ' : '0') {}
  template <class P> explicit Hex(P *v, PadSpec s = kNoPad) : Hex(reinterpret_cast<uintptr_t>(v), s) {}
};
struct Dec {
  uint64_t value; uint8_t width; char fill; bool neg;
  template <class I> explicit Dec(I v, PadSpec s = kNoPad)
      : value(v >= 0 ? uint64_t(v) : uint64_t{0} - uint64_t(v)),
        width(s == kNoPad ? 1 : s >= kSpacePad2 ? s - kSpacePad2 + 2 : s - kZeroPad2 + 2), fill(s >= kSpacePad2 ? ' ' : '0'), neg(v < 0) {}
};

class AlphaNum {
 public:
  AlphaNum(const char *c) : piece_(NullSafeStringView(c)) {}
  AlphaNum(string_view v) : piece_(v) {}
  template <class A> AlphaNum(const std::basic_string<char, std::char_traits<char>, A> &s) : piece_(s) {}
  AlphaNum(short v) { Num("%d", (int)v); }
  AlphaNum(unsigned short v) { Num("%u", (unsigned)v); }
  AlphaNum(int v) { Num("%d", v); }
  AlphaNum(unsigned v) { Num("%u", v); }
  AlphaNum(long v) { Num("%ld", v); }
  AlphaNum(unsigned long v) { Num("%lu", v); }
  AlphaNum(long long v) { Num("%lld", v); }
  AlphaNum(unsigned long long v) { Num("%llu", v); }
  AlphaNum(float v) { Num("%g", (double)v); }
  AlphaNum(double v) { Num("%g", v); }
  AlphaNum(bool v) : AlphaNum(int(v)) {}
  AlphaNum(Hex h) { buf_ = Pad(h.value, 16, h.width, h.fill, false); piece_ = buf_; }
  AlphaNum(Dec d) { buf_ = Pad(d.value, 10, d.width, d.fill, d.neg); piece_ = buf_; }
  template <class T, std::enable_if_t<shim_internal::HasStringify<T>::value && !std::is_convertible_v<const T &, string_view>, int> = 0>
  AlphaNum(const T &v) { shim_internal::AnySink s{&buf_}; AbslStringify(s, v); piece_ = buf_; }
  template <class T, std::enable_if_t<std::is_enum_v<T> && std::is_convertible_v<T, int> && !shim_internal::HasStringify<T>::value, int> = 0>
  AlphaNum(T v) : AlphaNum(static_cast<std::underlying_type_t<T>>(v)) {}
  AlphaNum(char) = delete;
  AlphaNum(const AlphaNum &) = delete;
  AlphaNum &operator=(const AlphaNum &) = delete;
  string_view Piece() const { return piece_; }
  size_t size() const { return piece_.size(); }
 private:
  template <class T> void Num(const char *f, T v) { char b[64]; snprintf(b, sizeof b, f, v); buf_ = b; piece_ = buf_; }
  static std::string Pad(uint64_t v, int base, int w, char fill, bool neg) {
    char b[32]; snprintf(b, sizeof b, base == 16 ? "%" PRIx64 : "%" PRIu64, v);
    std::string s = b; if (neg && fill == ' ') s = "-" + s;
    int ww = w - (neg && fill != ' ');
    if ((int)s.size() < ww) s.insert(0, ww - s.size(), fill);
    if (neg && fill != ' ') s = "-" + s;
    return s;
  }
  std::string buf_; string_view piece_;
};
namespace shim_internal {
inline std::string Cat(std::initializer_list<string_view> l) {
  std::string r; size_t n = 0; for (auto v : l) n += v.size(); r.reserve(n);
  for (auto v : l) r.append(v.data(), v.size()); return r;
}
inline std::string CatA() { return {}; }
template <class... A> std::string CatA(const A &...a) { return Cat({a.Piece()...}); }
template <class T> using AN = AlphaNum;
}
template <class... T> std::string StrCat(const T &...t) {
  return shim_internal::CatA(static_cast<const AlphaNum &>(AlphaNum(t))...);
}
template <class... T> void StrAppend(std::string *d, const T &...t) { d->append(StrCat(t...)); }

inline bool StrContains(string_view h, string_view n) { return h.find(n) != h.npos; }
inline bool StrContains(string_view h, char n) { return h.find(n) != h.npos; }
inline bool StartsWith(string_view t, string_view p) { return t.substr(0, p.size()) == p; }
inline bool EndsWith(string_view t, string_view s) { return t.size() >= s.size() && t.substr(t.size() - s.size()) == s; }
inline bool ConsumePrefix(string_view *s, string_view p) { if (!StartsWith(*s, p)) return false; s->remove_prefix(p.size()); return true; }
inline bool ConsumeSuffix(string_view *s, string_view p) { if (!EndsWith(*s, p)) return false; s->remove_suffix(p.size()); return true; }
inline string_view StripPrefix(string_view s, string_view p) { ConsumePrefix(&s, p); return s; }
inline string_view StripSuffix(string_view s, string_view p) { ConsumeSuffix(&s, p); return s; }
inline bool ascii_isspace(unsigned char c) { return isspace(c); }
inline bool ascii_isdigit(unsigned char c) { return c >= '0' && c <= '9'; }
inline bool ascii_isalpha(unsigned char c) { return isalpha(c); }
inline bool ascii_isalnum(unsigned char c) { return isalnum(c); }
inline char ascii_tolower(unsigned char c) { return tolower(c); }
inline char ascii_toupper(unsigned char c) { return toupper(c); }
inline std::string AsciiStrToLower(string_view s) { std::string r(s); for (char &c : r) c = tolower((unsigned char)c); return r; }
inline std::string AsciiStrToUpper(string_view s) { std::string r(s); for (char &c : r) c = toupper((unsigned char)c); return r; }
inline string_view StripLeadingAsciiWhitespace(string_view s) { while (!s.empty() && isspace((unsigned char)s[0])) s.remove_prefix(1); return s; }
inline string_view StripTrailingAsciiWhitespace(string_view s) { while (!s.empty() && isspace((unsigned char)s.back())) s.remove_suffix(1); return s; }
inline string_view StripAsciiWhitespace(string_view s) { return StripLeadingAsciiWhitespace(StripTrailingAsciiWhitespace(s)); }
inline bool EqualsIgnoreCase(string_view a, string_view b) { return AsciiStrToLower(a) == AsciiStrToLower(b); }
template <class I> bool SimpleAtoi(string_view s, I *out) {
  std::string t(StripAsciiWhitespace(s)); if (t.empty()) return false;
  errno = 0; char *e;
  if constexpr (std::is_signed_v<I>) {
    long long v = strtoll(t.c_str(), &e, 10); if (*e || errno) return false;
    if (v < (long long)std::numeric_limits<I>::min() || v > (long long)std::numeric_limits<I>::max()) return false;
    *out = v;
  } else {
    if (t[0] == '-') return false;
    unsigned long long v = strtoull(t.c_str(), &e, 10); if (*e || errno) return false;
    if (v > (unsigned long long)std::numeric_limits<I>::max()) return false;
    *out = v;
  }
  return true;
}
template <class I> bool SimpleHexAtoi(string_view s, I *out) {
  std::string t(StripAsciiWhitespace(s)); if (t.empty()) return false;
  errno = 0; char *e; unsigned long long v = strtoull(t.c_str(), &e, 16);
  if (*e || errno || v > (unsigned long long)std::numeric_limits<I>::max()) return false; *out = v; return true;
}
inline bool SimpleAtod(string_view s, double *d) { std::string t(s); char *e; *d = strtod(t.c_str(), &e); return !t.empty() && !*e; }
inline bool SimpleAtof(string_view s, float *d) { std::string t(s); char *e; *d = strtof(t.c_str(), &e); return !t.empty() && !*e; }
inline bool SimpleAtob(string_view s, bool *b) {
  std::string t = AsciiStrToLower(s);
  if (t == "true" || t == "t" || t == "yes" || t == "y" || t == "1") { *b = true; return true; }
  if (t == "false" || t == "f" || t == "no" || t == "n" || t == "0") { *b = false; return true; }
  return false;
}
inline std::string StrReplaceAll(string_view s, std::initializer_list<std::pair<string_view, string_view>> r) {
  std::string o;
  for (size_t i = 0; i < s.size();) {
    const std::pair<string_view, string_view> *best = nullptr;
    for (auto &p : r) if (!p.first.empty() && s.substr(i, p.first.size()) == p.first && (!best || p.first.size() > best->first.size())) best = &p;
    if (best) { o.append(best->second); i += best->first.size(); } else o.push_back(s[i++]);
  }
  return o;
}
inline std::string BytesToHexString(string_view s) { std::string o; char b[4]; for (unsigned char c : s) { snprintf(b, 4, "%02x", c); o += b; } return o; }
inline std::string CEscape(string_view s) {
  std::string o; char b[8];
  for (unsigned char c : s) { if (c == '\n') o += "\\n"; else if (c == '\t') o += "\\t"; else if (c == '\r') o += "\\r"; else if (c == '"') o += "\\\""; else if (c == '\'') o += "\\'"; else if (c == '\\') o += "\\\\"; else if (c < 32 || c >= 127) { snprintf(b, 8, "\\%03o", c); o += b; } else o += (char)c; }
  return o;
}

// StrJoin
struct AlphaNumFormatterImpl { template <class T> void operator()(std::string *o, const T &t) const { StrAppend(o, t); } };
inline AlphaNumFormatterImpl AlphaNumFormatter() { return {}; }
template <class F1, class F2> struct PairFormatterImpl {
  F1 f1; std::string sep; F2 f2;
  template <class P> void operator()(std::string *o, const P &p) { f1(o, p.first); o->append(sep); f2(o, p.second); }
};
template <class F1, class F2> PairFormatterImpl<F1, F2> PairFormatter(F1 a, string_view sep, F2 b) { return {a, std::string(sep), b}; }
inline PairFormatterImpl<AlphaNumFormatterImpl, AlphaNumFormatterImpl> PairFormatter(string_view sep) { return {{}, std::string(sep), {}}; }
struct StreamFormatterImpl { template <class T> void operator()(std::string *o, const T &t) const { std::ostringstream s; s << t; o->append(s.str()); } };
inline StreamFormatterImpl StreamFormatter() { return {}; }
template <class It, class F> std::string StrJoin(It b, It e, string_view sep, F &&f) {
  std::string r; bool first = true;
  for (; b != e; ++b) { if (!first) r.append(sep); first = false; f(&r, *b); }
  return r;
}
template <class It, class = decltype(*std::declval<It>()), class = decltype(++std::declval<It &>())>
std::string StrJoin(It b, It e, string_view sep) { return StrJoin(b, e, sep, AlphaNumFormatterImpl()); }
template <class R, class F, class = decltype(std::begin(std::declval<const R &>()))>
std::string StrJoin(const R &r, string_view sep, F &&f) { return StrJoin(std::begin(r), std::end(r), sep, std::forward<F>(f)); }
template <class R, class = decltype(std::begin(std::declval<const R &>()))>
std::string StrJoin(const R &r, string_view sep) { return StrJoin(std::begin(r), std::end(r), sep, AlphaNumFormatterImpl()); }
template <class T, class F> std::string StrJoin(std::initializer_list<T> r, string_view sep, F &&f) { return StrJoin(r.begin(), r.end(), sep, std::forward<F>(f)); }
template <class T> std::string StrJoin(std::initializer_list<T> r, string_view sep) { return StrJoin(r.begin(), r.end(), sep, AlphaNumFormatterImpl()); }

// StrSplit
struct ByChar { char c; explicit ByChar(char ch) : c(ch) {}
  std::pair<size_t, size_t> Find(string_view t, size_t p) const { size_t i = t.find(c, p); return {i == t.npos ? t.size() : i, 1}; } };
struct ByString { std::string s; explicit ByString(string_view v) : s(v) {}
  std::pair<size_t, size_t> Find(string_view t, size_t p) const {
    if (s.empty()) return {std::min(t.size(), p + 1), 0};
    size_t i = t.find(s, p); return {i == t.npos ? t.size() : i, s.size()}; } };
struct ByAnyChar { std::string s; explicit ByAnyChar(string_view v) : s(v) {}
  std::pair<size_t, size_t> Find(string_view t, size_t p) const { size_t i = t.find_first_of(s, p); return {i == t.npos ? t.size() : i, 1}; } };
template <class D> struct MaxSplitsImpl { D d; int limit; };
template <class D> MaxSplitsImpl<D> MaxSplits(D d, int n) { return {d, n}; }
inline MaxSplitsImpl<ByChar> MaxSplits(char c, int n) { return {ByChar(c), n}; }
inline MaxSplitsImpl<ByString> MaxSplits(const char *c, int n) { return {ByString(c), n}; }
struct AllowEmpty { bool operator()(string_view) const { return true; } };
struct SkipEmpty { bool operator()(string_view s) const { return !s.empty(); } };
struct SkipWhitespace { bool operator()(string_view s) const { return !StripAsciiWhitespace(s).empty(); } };
namespace shim_internal {
class SplitResult {
 public:
  std::string own; std::vector<string_view> v;
  auto begin() const { return v.begin(); }
  auto end() const { return v.end(); }
  template <class C, class V = typename C::value_type, class = std::enable_if_t<std::is_constructible_v<V, string_view>>, class = decltype(std::declval<C &>().clear())>
  operator C() const { C c; for (auto s : v) c.insert(c.end(), V(s)); return c; }
  template <class A, class B, class = std::enable_if_t<std::is_constructible_v<A, string_view> && std::is_constructible_v<B, string_view>>>
  operator std::pair<A, B>() const { return {A(v.size() > 0 ? v[0] : string_view()), B(v.size() > 1 ? v[1] : string_view())}; }
};
template <class D> void DoSplit(string_view t, const D &d, int lim, std::vector<string_view> *out) {
  size_t p = 0; int n = 0;
  if (t.data() == nullptr) t = "";
  while (true) {
    if (lim >= 0 && n >= lim) { out->push_back(t.substr(p)); return; }
    auto [i, l] = d.Find(t, p);
    if (i >= t.size()) { out->push_back(t.substr(p)); return; }
    out->push_back(t.substr(p, i - p)); p = i + l; ++n;
  }
}
inline ByChar MkDelim(char c) { return ByChar(c); }
inline ByString MkDelim(const char *c) { return ByString(c); }
inline ByString MkDelim(string_view c) { return ByString(c); }
inline ByString MkDelim(const std::string &c) { return ByString(c); }
template <class D> D MkDelim(D d) { return d; }
template <class D> void Run(string_view t, const D &d, std::vector<string_view> *o) { DoSplit(t, d, -1, o); }
template <class D> void Run(string_view t, const MaxSplitsImpl<D> &d, std::vector<string_view> *o) { DoSplit(t, d.d, d.limit, o); }
}  // namespace shim_internal
template <class D, class P> shim_internal::SplitResult StrSplit(string_view t, const D &d, P p) {
  shim_internal::SplitResult r; std::vector<string_view> o; shim_internal::Run(t, shim_internal::MkDelim(d), &o);
  for (auto s : o) if (p(s)) r.v.push_back(s);
  return r;
}
template <class D> shim_internal::SplitResult StrSplit(string_view t, const D &d) { return StrSplit(t, d, AllowEmpty()); }

// ---------------------------------------------------------------- str_format
namespace shim_internal {
struct FmtSpec { bool left = false, plus = false, space = false, alt = false, zero = false; int width = -1, prec = -1; char conv = 0; };
inline void PadOut(std::string *o, std::string body, const FmtSpec &s, bool num) {
  int n = s.width - (int)body.size();
  if (n <= 0) { *o += body; return; }
  if (s.left) { *o += body; o->append(n, ' '); }
  else if (num && s.zero) {
    size_t pre = 0; if (!body.empty() && (body[0] == '-' || body[0] == '+' || body[0] == ' ')) pre = 1;
    if (body.size() > pre + 1 && body[pre] == '0' && (body[pre + 1] == 'x' || body[pre + 1] == 'X')) pre += 2;
    body.insert(pre, n, '0'); *o += body;
  } else { o->append(n, ' '); *o += body; }
}
inline void FmtInt(std::string *o, bool neg, unsigned long long mag, unsigned long long bits, const FmtSpec &s) {
  char b[80]; std::string body; char c = s.conv;
  if (c == 'd' || c == 'i' || c == 'v' || c == 'u') {
    snprintf(b, sizeof b, "%llu", (c == 'u') ? bits : mag); body = b;
  } else if (c == 'x') { snprintf(b, sizeof b, "%llx", bits); body = b; }
  else if (c == 'X') { snprintf(b, sizeof b, "%llX", bits); body = b; }
  else if (c == 'o') { snprintf(b, sizeof b, "%llo", bits); body = b; }
  else { fprintf(stderr, "vshim StrFormat: bad int conv %c\n", c); abort(); }
  if (s.prec >= 0 && (int)body.size() < s.prec) body.insert(0, s.prec - body.size(), '0');
  if (s.prec == 0 && bits == 0) body.clear();
  if (s.alt && bits != 0) { if (c == 'x') body = "0x" + body; else if (c == 'X') body = "0X" + body; else if (c == 'o' && body[0] != '0') body = "0" + body; }
  if (c == 'd' || c == 'i' || c == 'v') { if (neg) body = "-" + body; else if (s.plus) body = "+" + body; else if (s.space) body = " " + body; }
  FmtSpec t = s; if (s.prec >= 0) t.zero = false;
  PadOut(o, body, t, true);
}
inline void FmtStr(std::string *o, string_view v, const FmtSpec &s) {
  if (s.prec >= 0) v = v.substr(0, s.prec);
  PadOut(o, std::string(v), s, false);
}
inline void FmtDouble(std::string *o, double v, FmtSpec s) {
  char f[32]; std::string fs = "%"; if (s.left) fs += '-'; if (s.plus) fs += '+'; if (s.space) fs += ' '; if (s.alt) fs += '#'; if (s.zero) fs += '0';
  if (s.width >= 0) { snprintf(f, 32, "%d", s.width); fs += f; }
  if (s.prec >= 0) { snprintf(f, 32, ".%d", s.prec); fs += f; }
  fs += s.conv == 'v' ? 'g' : s.conv;
  char b[512]; int n = snprintf(b, sizeof b, fs.c_str(), v);
  if (n < (int)sizeof b) { *o += b; return; }
  std::string big(n + 1, 0); snprintf(big.data(), n + 1, fs.c_str(), v); big.resize(n); *o += big;
}
class FormatSinkImpl { public: std::string *s; void Append(string_view v) { s->append(v); } void Append(size_t n, char c) { s->append(n, c); } };
// FormatConvert support (AbslFormatConvert extension) is not needed.
struct FArg {
  const void *p; void (*emit)(std::string *, const void *, const FmtSpec &); long long ival; bool is_int;
};
template <class T> void EmitOne(std::string *o, const void *p, const FmtSpec &s) {
  const T &v = *static_cast<const T *>(p);
  if constexpr (std::is_same_v<T, bool>) {
    if (s.conv == 'v') FmtStr(o, v ? "true" : "false", s); else FmtInt(o, false, v, v, s);
  } else if constexpr (HasStringify<T>::value && !std::is_arithmetic_v<T>) {
    std::string b; AnySink k{&b}; AbslStringify(k, v); FmtStr(o, b, s);
  } else if constexpr (std::is_enum_v<T>) {
    auto u = static_cast<std::underlying_type_t<T>>(v); EmitOne<decltype(u)>(o, &u, s);
  } else if constexpr (std::is_integral_v<T>) {
    if (s.conv == 'c') { PadOut(o, std::string(1, (char)v), s, false); return; }
    if (std::is_same_v<T, char> && s.conv == 'v') { PadOut(o, std::string(1, (char)v), s, false); return; }
    if (strchr("eEfFgGaA", s.conv)) { FmtDouble(o, (double)v, s); return; }
    bool neg = v < 0; unsigned long long bits = (unsigned long long)(std::make_unsigned_t<T>)v;
    unsigned long long mag = neg ? 0ull - (unsigned long long)(long long)v : (unsigned long long)v;
    FmtInt(o, neg, mag, bits, s);
  } else if constexpr (std::is_floating_point_v<T>) {
    FmtDouble(o, v, s);
  } else if constexpr (std::is_convertible_v<const T &, string_view>) {
    if constexpr (std::is_pointer_v<std::decay_t<T>>) {
      if (s.conv == 'p') { char b[40]; snprintf(b, 40, "%p", (const void *)v); FmtStr(o, b, s); return; }
      FmtStr(o, v ? string_view(v) : string_view(""), s);
    } else FmtStr(o, string_view(v), s);
  } else if constexpr (std::is_pointer_v<std::decay_t<T>>) {
    char b[40]; snprintf(b, 40, "%p", (const void *)v); FmtStr(o, b, s);
  } else { std::ostringstream ss; ss << v; FmtStr(o, ss.str(), s); }
}
template <class T> FArg MkArg(const T &v) {
  FArg a{&v, &EmitOne<T>, 0, false};
  if constexpr (std::is_integral_v<T>) { a.ival = (long long)v; a.is_int = true; }
  return a;
}
inline void FormatTo(std::string *o, string_view f, const FArg *args, size_t n) {
  size_t ai = 0, i = 0;
  auto die = [&](const char *why) { fprintf(stderr, "vshim StrFormat: %s in \"%.*s\"\n", why, (int)f.size(), f.data()); abort(); };
  auto next = [&]() -> const FArg & { if (ai >= n) die("too few args"); return args[ai++]; };
  while (i < f.size()) {
    if (f[i] != '%') { *o += f[i++]; continue; }
    if (++i >= f.size()) die("trailing %");
    if (f[i] == '%') { *o += '%'; ++i; continue; }
    FmtSpec s; const FArg *fixed = nullptr;
    { size_t j = i; int k = 0; while (j < f.size() && isdigit((unsigned char)f[j])) k = k * 10 + f[j++] - '0';
      if (j < f.size() && f[j] == '$' && j > i) { if (k < 1 || (size_t)k > n) die("bad positional"); fixed = &args[k - 1]; i = j + 1; } }
    for (; i < f.size(); ++i) {
      if (f[i] == '-') s.left = true; else if (f[i] == '+') s.plus = true; else if (f[i] == ' ') s.space = true;
      else if (f[i] == '#') s.alt = true; else if (f[i] == '0') s.zero = true; else break;
    }
    if (i < f.size() && f[i] == '*') { s.width = (int)next().ival; if (s.width < 0) { s.left = true; s.width = -s.width; } ++i; }
    else if (i < f.size() && isdigit((unsigned char)f[i])) { s.width = 0; while (i < f.size() && isdigit((unsigned char)f[i])) s.width = s.width * 10 + f[i++] - '0'; }
    if (i < f.size() && f[i] == '.') {
      ++i; s.prec = 0;
      if (i < f.size() && f[i] == '*') { s.prec = (int)next().ival; ++i; }
      else while (i < f.size() && isdigit((unsigned char)f[i])) s.prec = s.prec * 10 + f[i++] - '0';
    }
    while (i < f.size() && strchr("hlLjztq", f[i])) ++i;
    if (i >= f.size()) die("no conversion");
    s.conv = f[i++];
    if (!strchr("diouxXeEfFgGaAcspv", s.conv)) die("bad conversion");
    const FArg &a = fixed ? *fixed : next();
    a.emit(o, a.p, s);
  }
  
}
template <class... A> std::string DoFormat(string_view f, const A &...a) {
  std::string o;
  FArg args[sizeof...(A) + 1] = {MkArg<std::conditional_t<std::is_array_v<A>, const char *, A>>(a)..., FArg{}};
  FormatTo(&o, f, args, sizeof...(A)); return o;
}
// char arrays decay: wrap so that the pointee lives long enough.
template <class T> const T &Fwd(const T &t) { return t; }
inline const char *Fwd(const char *t) { return t; }
}  // namespace shim_internal
template <class... A> using FormatSpec = string_view;
template <class... A> std::string StrFormat(string_view f, const A &...a) {
  return [&](const auto &...b) { return shim_internal::DoFormat(f, b...); }(shim_internal::Fwd(a)...);
}
template <class... A> std::string &StrAppendFormat(std::string *d, string_view f, const A &...a) { return d->append(StrFormat(f, a...)); }
struct StreamedFormat { std::string s; friend std::ostream &operator<<(std::ostream &o, const StreamedFormat &f) { return o << f.s; } };
template <class... A> StreamedFormat StreamFormat(string_view f, const A &...a) { return {StrFormat(f, a...)}; }
template <class... A> int PrintF(string_view f, const A &...a) { std::string s = StrFormat(f, a...); return (int)fwrite(s.data(), 1, s.size(), stdout); }
template <class... A> int FPrintF(FILE *o, string_view f, const A &...a) { std::string s = StrFormat(f, a...); return (int)fwrite(s.data(), 1, s.size(), o); }
template <class... A> int SNPrintF(char *b, size_t n, string_view f, const A &...a) {
  std::string s = StrFormat(f, a...); if (n) { size_t k = std::min(n - 1, s.size()); memcpy(b, s.data(), k); b[k] = 0; } return (int)s.size(); }
inline void AbslFormatFlush(std::string *o, string_view v) { o->append(v); }
inline void AbslFormatFlush(std::ostream *o, string_view v) { *o << v; }
inline void AbslFormatFlush(FILE *o, string_view v) { fwrite(v.data(), 1, v.size(), o); }
namespace shim_internal {
template <class S, class = void> struct HasAppend : std::false_type {};
template <class S> struct HasAppend<S, std::void_t<decltype(std::declval<S &>().Append(string_view()))>> : std::true_type {};
}
template <class S, class... A> bool Format(S *sink, string_view f, const A &...a) {
  std::string s = StrFormat(f, a...);
  if constexpr (std::is_base_of_v<std::ostream, S>) { *sink << s; }
  else if constexpr (shim_internal::HasAppend<S>::value) { sink->Append(s); }
  else { AbslFormatFlush(sink, s); }
  return true;
}
template <class S, class... A> bool Format(S &sink, string_view f, const A &...a) { return Format(&sink, f, a...); }
struct FormatStreamedT {};
template <class T> struct StreamedWrap { const T &v; friend std::ostream &operator<<(std::ostream &o, const StreamedWrap &w) { return o << w.v; } };
template <class T> StreamedWrap<T> FormatStreamed(const T &v) { return {v}; }

// ---------------------------------------------------------------- status
enum class StatusCode : int {
  kOk = 0, kCancelled, kUnknown, kInvalidArgument, kDeadlineExceeded, kNotFound, kAlreadyExists, kPermissionDenied,
  kResourceExhausted, kFailedPrecondition, kAborted, kOutOfRange, kUnimplemented, kInternal, kUnavailable, kDataLoss, kUnauthenticated,
};
inline std::string StatusCodeToString(StatusCode c) {
  static const char *n[] = {"OK", "CANCELLED", "UNKNOWN", "INVALID_ARGUMENT", "DEADLINE_EXCEEDED", "NOT_FOUND", "ALREADY_EXISTS", "PERMISSION_DENIED",
    "RESOURCE_EXHAUSTED", "FAILED_PRECONDITION", "ABORTED", "OUT_OF_RANGE", "UNIMPLEMENTED", "INTERNAL", "UNAVAILABLE", "DATA_LOSS", "UNAUTHENTICATED"};
  return n[(int)c];
}
inline std::ostream &operator<<(std::ostream &o, StatusCode c) { return o << StatusCodeToString(c); }
class Status {
 public:
  Status() = default;
  Status(StatusCode c, string_view m) : c_(c), m_(c == StatusCode::kOk ? string_view() : m) {}
  bool ok() const { return c_ == StatusCode::kOk; }
  StatusCode code() const { return c_; }
  int raw_code() const { return (int)c_; }
  string_view message() const { return m_; }
  std::string ToString() const { return ok() ? "OK" : StrCat(StatusCodeToString(c_), ": ", m_); }
  void Update(const Status &s) { if (ok()) *this = s; }
  void IgnoreError() const {}
  friend bool operator==(const Status &a, const Status &b) { return a.c_ == b.c_ && a.m_ == b.m_; }
  friend bool operator!=(const Status &a, const Status &b) { return !(a == b); }
  friend std::ostream &operator<<(std::ostream &o, const Status &s) { return o << s.ToString(); }
  template <class Sink> friend void AbslStringify(Sink &k, const Status &s) { k.Append(s.ToString()); }
 private:
  StatusCode c_ = StatusCode::kOk; std::string m_;
};
inline Status OkStatus() { return Status(); }
#define VSHIM_ERR(N) inline Status N##Error(string_view m) { return Status(StatusCode::k##N, m); } \
  inline bool Is##N(const Status &s) { return s.code() == StatusCode::k##N; }
VSHIM_ERR(Cancelled) VSHIM_ERR(Unknown) VSHIM_ERR(InvalidArgument) VSHIM_ERR(DeadlineExceeded) VSHIM_ERR(NotFound)
VSHIM_ERR(AlreadyExists) VSHIM_ERR(PermissionDenied) VSHIM_ERR(ResourceExhausted) VSHIM_ERR(FailedPrecondition) VSHIM_ERR(Aborted)
VSHIM_ERR(OutOfRange) VSHIM_ERR(Unimplemented) VSHIM_ERR(Internal) VSHIM_ERR(Unavailable) VSHIM_ERR(DataLoss) VSHIM_ERR(Unauthenticated)
#undef VSHIM_ERR
inline StatusCode ErrnoToStatusCode(int e) {
  switch (e) {
    case 0: return StatusCode::kOk;
    case EINVAL: case ENAMETOOLONG: case E2BIG: case EDOM: case EFAULT: case EILSEQ: case ENOTTY: return StatusCode::kInvalidArgument;
    case ENODEV: case ENOENT: case ENXIO: case ESRCH: return StatusCode::kNotFound;
    case EEXIST: return StatusCode::kAlreadyExists;
    case EACCES: case EPERM: case EROFS: return StatusCode::kPermissionDenied;
    case ENOTEMPTY: case EISDIR: case ENOTDIR: case EBADF: case EBUSY: case EPIPE: case ETXTBSY: return StatusCode::kFailedPrecondition;
    case ENOSPC: case EMFILE: case ENFILE: case ENOMEM: return StatusCode::kResourceExhausted;
    default: return StatusCode::kUnknown;
  }
}
inline Status ErrnoToStatus(int e, string_view m) { return Status(ErrnoToStatusCode(e), StrCat(m, ": ", strerror(e))); }

template <class T>
class StatusOr {
  template <class U> friend class StatusOr;
 public:
  using value_type = T;
  StatusOr() : s_(StatusCode::kUnknown, "") {}
  StatusOr(const StatusOr &) = default;
  StatusOr(StatusOr &&o) noexcept(std::is_nothrow_move_constructible_v<T>) : s_(o.s_), v_(std::move(o.v_)) {}
  StatusOr &operator=(const StatusOr &o) { s_ = o.s_; v_.reset(); if (o.v_) v_.emplace(*o.v_); return *this; }
  StatusOr &operator=(StatusOr &&o) { s_ = o.s_; v_.reset(); if (o.v_) v_.emplace(std::move(*o.v_)); return *this; }
  template <class U, std::enable_if_t<!std::is_same_v<T, U> && std::is_convertible_v<U &&, T>, int> = 0>
  StatusOr(StatusOr<U> &&o) : s_(o.s_) { if (o.v_) v_.emplace(std::move(*o.v_)); }
  template <class U, std::enable_if_t<!std::is_same_v<T, U> && std::is_convertible_v<const U &, T>, int> = 0>
  StatusOr(const StatusOr<U> &o) : s_(o.s_) { if (o.v_) v_.emplace(*o.v_); }
  StatusOr(const Status &s) : s_(s) { if (s_.ok()) abort(); }
  StatusOr(Status &&s) : s_(std::move(s)) { if (s_.ok()) abort(); }
  template <class U = T, std::enable_if_t<std::is_convertible_v<U &&, T> && !std::is_same_v<std::decay_t<U>, StatusOr> && !std::is_same_v<std::decay_t<U>, Status> && !std::is_same_v<std::decay_t<U>, std::in_place_t>, int> = 0>
  StatusOr(U &&u) : v_(std::in_place, std::forward<U>(u)) {}
  template <class U = T, std::enable_if_t<!std::is_convertible_v<U &&, T> && std::is_constructible_v<T, U &&> && !std::is_same_v<std::decay_t<U>, StatusOr> && !std::is_same_v<std::decay_t<U>, Status> && !std::is_same_v<std::decay_t<U>, std::in_place_t>, int> = 0>
  explicit StatusOr(U &&u) : v_(std::in_place, std::forward<U>(u)) {}
  template <class... A> explicit StatusOr(std::in_place_t, A &&...a) : v_(std::in_place, std::forward<A>(a)...) {}
  bool ok() const { return v_.has_value(); }
  const Status &status() const & { return s_; }
  Status status() && { return s_; }
  const T &value() const & { Ensure(); return *v_; }
  T &value() & { Ensure(); return *v_; }
  T &&value() && { Ensure(); return std::move(*v_); }
  const T &operator*() const & { Ensure(); return *v_; }
  T &operator*() & { Ensure(); return *v_; }
  T &&operator*() && { Ensure(); return std::move(*v_); }
  const T *operator->() const { Ensure(); return &*v_; }
  T *operator->() { Ensure(); return &*v_; }
  template <class U> T value_or(U &&d) const & { return v_ ? *v_ : static_cast<T>(std::forward<U>(d)); }
  template <class U> T value_or(U &&d) && { return v_ ? std::move(*v_) : static_cast<T>(std::forward<U>(d)); }
  void IgnoreError() const {}
  template <class... A> T &emplace(A &&...a) { s_ = Status(); return v_.emplace(std::forward<A>(a)...); }
  friend bool operator==(const StatusOr &a, const StatusOr &b) { return a.ok() == b.ok() && (a.ok() ? *a.v_ == *b.v_ : a.s_ == b.s_); }
 private:
  void Ensure() const { if (!v_) { fprintf(stderr, "vshim StatusOr: value of error: %s\n", s_.ToString().c_str()); abort(); } }
  Status s_; std::optional<T> v_;
};

// ---------------------------------------------------------------- hash
namespace shim_internal {
inline uint64_t HashSeed() {
  static const uint64_t s = [] { const char *e = getenv("VSHIM_HASH_SEED"); return e ? strtoull(e, nullptr, 0) * 0x9E3779B97F4A7C15ull + 1 : 0x51ed270b0a1f3937ull; }();
  return s;
}
// Test drivers may change the seed at run time for tables created afterwards.
inline uint64_t &RuntimeSeed() { static uint64_t s = HashSeed(); return s; }
inline uint64_t Mix(uint64_t h, uint64_t v) {
  h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
  h ^= h >> 33; h *= 0xff51afd7ed558ccdull; h ^= h >> 33; h *= 0xc4ceb9fe1a85ec53ull; h ^= h >> 33; return h;
}
}
class HashState;
namespace shim_internal {
struct HState {
  uint64_t h = 0;
  template <class T> static HState AddOne(HState s, const T &v);
  static HState combine(HState s) { return s; }
  template <class T, class... R> static HState combine(HState s, const T &v, const R &...r) { return combine(AddOne(s, v), r...); }
  template <class T> static HState combine_contiguous(HState s, const T *p, size_t n) { for (size_t i = 0; i < n; ++i) s = AddOne(s, p[i]); return AddOne(s, n); }
};
template <class T, class = void> struct HasAbslHash : std::false_type {};
template <class T> struct HasAbslHash<T, std::void_t<decltype(AbslHashValue(std::declval<HState>(), std::declval<const T &>()))>> : std::true_type {};
template <class T> struct IsPairT : std::false_type {};
template <class A, class B> struct IsPairT<std::pair<A, B>> : std::true_type {};
template <class T> struct IsTupleT : std::false_type {};
template <class... A> struct IsTupleT<std::tuple<A...>> : std::true_type {};
template <class T> struct IsOptT : std::false_type {};
template <class A> struct IsOptT<std::optional<A>> : std::true_type {};
template <class T> struct IsUPtrT : std::false_type {};
template <class A, class D> struct IsUPtrT<std::unique_ptr<A, D>> : std::true_type {};
template <class A> struct IsUPtrT<std::shared_ptr<A>> : std::true_type {};
template <class T, class = void> struct IsRangeT : std::false_type {};
template <class T> struct IsRangeT<T, std::void_t<decltype(std::declval<const T &>().begin()), decltype(std::declval<const T &>().size())>> : std::true_type {};
template <class T> HState HState::AddOne(HState s, const T &v) {
  if constexpr (HasAbslHash<T>::value) return AbslHashValue(s, v);
  else if constexpr (std::is_enum_v<T>) { s.h = Mix(s.h, (uint64_t)v); return s; }
  else if constexpr (std::is_integral_v<T>) { s.h = Mix(s.h, (uint64_t)v); return s; }
  else if constexpr (std::is_floating_point_v<T>) { double d = v == 0 ? 0 : v; uint64_t b; memcpy(&b, &d, 8); s.h = Mix(s.h, b); return s; }
  else if constexpr (std::is_convertible_v<const T &, string_view>) {
    string_view w(v); uint64_t h = s.h; for (unsigned char c : w) h = (h ^ c) * 0x100000001b3ull; s.h = Mix(h, w.size()); return s; }
  else if constexpr (std::is_pointer_v<T>) { s.h = Mix(s.h, (uint64_t)(uintptr_t)v); return s; }
  else if constexpr (IsPairT<T>::value) return combine(s, v.first, v.second);
  else if constexpr (IsTupleT<T>::value) return std::apply([&](const auto &...e) { return combine(s, e...); }, v);
  else if constexpr (IsOptT<T>::value) return v ? combine(s, true, *v) : combine(s, false);
  else if constexpr (IsUPtrT<T>::value) return combine(s, v.get());
  else if constexpr (IsRangeT<T>::value) { for (const auto &e : v) s = AddOne(s, e); return AddOne(s, v.size()); }
  else { s.h = Mix(s.h, std::hash<T>()(v)); return s; }
}
template <class T> struct DefHash {
  size_t operator()(const T &v) const { return HState::AddOne(HState{}, v).h; }
};
struct StrHash { using is_transparent = void; size_t operator()(string_view v) const { return HState::AddOne(HState{}, v).h; } };
struct StrEq { using is_transparent = void; bool operator()(string_view a, string_view b) const { return a == b; } };
struct PtrHash { using is_transparent = void;
  template <class P> size_t operator()(const P &p) const { return HState::AddOne(HState{}, (uint64_t)(uintptr_t)Get(p)).h; }
  template <class P> static const volatile void *Get(P *p) { return p; }
  template <class P, class D> static const volatile void *Get(const std::unique_ptr<P, D> &p) { return p.get(); }
  template <class P> static const volatile void *Get(const std::shared_ptr<P> &p) { return p.get(); } };
struct PtrEq { using is_transparent = void; template <class A, class B> bool operator()(const A &a, const B &b) const { return PtrHash::Get(a) == PtrHash::Get(b); } };
template <class T> struct HashEqDef { using H = DefHash<T>; using E = std::equal_to<T>; };
template <> struct HashEqDef<std::string> { using H = StrHash; using E = StrEq; };
template <> struct HashEqDef<string_view> { using H = StrHash; using E = StrEq; };
template <class T> struct HashEqDef<T *> { using H = PtrHash; using E = PtrEq; };
template <class T, class D> struct HashEqDef<std::unique_ptr<T, D>> { using H = PtrHash; using E = PtrEq; };
template <class T> struct HashEqDef<std::shared_ptr<T>> { using H = PtrHash; using E = PtrEq; };
template <class T, class = void> struct IsTransparent : std::false_type {};
template <class T> struct IsTransparent<T, std::void_t<typename T::is_transparent>> : std::true_type {};
template <bool B> struct KeyArgSel { template <class K, class Key> using type = K; };
template <> struct KeyArgSel<false> { template <class K, class Key> using type = Key; };

// Open addressing (linear probing over a power-of-two table).  Flat tables
// store elements in the slots; node tables store pointers.
template <class Key, class Value /*element*/, class KeyOf, class Hash, class Eq, bool kNode>
class RawTable {
 protected:
  using Slot = std::conditional_t<kNode, Value *, std::aligned_storage_t<sizeof(Value), alignof(Value)>>;
  template <class K> using key_arg = typename KeyArgSel<IsTransparent<Hash>::value && IsTransparent<Eq>::value>::template type<K, Key>;
  uint8_t *ctrl_ = nullptr;  // 0 empty, 1 tombstone, 2 full
  Slot *slots_ = nullptr;
  size_t cap_ = 0, size_ = 0, used_ = 0;
  uint64_t seed_ = RuntimeSeed();
  Hash hash_; Eq eq_;
  Value *At(size_t i) const {
    if constexpr (kNode) return slots_[i]; else return reinterpret_cast<Value *>(&slots_[i]);
  }
 public:
  using key_type = Key; using value_type = Value; using size_type = size_t; using difference_type = ptrdiff_t;
  using hasher = Hash; using key_equal = Eq; using reference = Value &; using const_reference = const Value &;
  using pointer = Value *; using const_pointer = const Value *;
  template <bool C> class Iter {
   public:
    using iterator_category = std::forward_iterator_tag; using value_type = Value; using difference_type = ptrdiff_t;
    using reference = std::conditional_t<C, const Value &, Value &>; using pointer = std::conditional_t<C, const Value *, Value *>;
    Iter() = default;
    template <bool D, class = std::enable_if_t<C && !D>> Iter(const Iter<D> &o) : c(o.c), s(o.s), e(o.e) {}
    reference operator*() const { if (!c || c == e) { fprintf(stderr, "vshim: deref of end() iterator\n"); abort(); } return *Ptr(); }
    pointer operator->() const { return &**this; }
    Iter &operator++() { ++c; ++s; Skip(); return *this; }
    Iter operator++(int) { Iter t = *this; ++*this; return t; }
    template <bool D> bool operator==(const Iter<D> &o) const { return c == o.c; }
    template <bool D> bool operator!=(const Iter<D> &o) const { return c != o.c; }
    void Skip() { while (c != e && *c != 2) { ++c; ++s; } }
    pointer Ptr() const { if constexpr (kNode) return *s; else return reinterpret_cast<pointer>(s); }
    const uint8_t *c = nullptr; Slot *s = nullptr; const uint8_t *e = nullptr;
  };
  using iterator = Iter<false>; using const_iterator = Iter<true>;
  RawTable() = default;
  explicit RawTable(size_t n) { reserve(n); }
  RawTable(std::initializer_list<Value> l) { for (const auto &v : l) insert(v); }
  template <class It> RawTable(It b, It e) { for (; b != e; ++b) insert(*b); }
  RawTable(const RawTable &o) : hash_(o.hash_), eq_(o.eq_) { for (const auto &v : o) insert(v); }
  RawTable(RawTable &&o) noexcept { swap(o); }
  RawTable &operator=(const RawTable &o) { if (this != &o) { RawTable t(o); swap(t); } return *this; }
  RawTable &operator=(RawTable &&o) noexcept { if (this != &o) { RawTable t(std::move(o)); swap(t); } return *this; }
  RawTable &operator=(std::initializer_list<Value> l) { clear(); for (const auto &v : l) insert(v); return *this; }
  ~RawTable() { Destroy(); }
  void swap(RawTable &o) noexcept {
    std::swap(ctrl_, o.ctrl_); std::swap(slots_, o.slots_); std::swap(cap_, o.cap_); std::swap(size_, o.size_);
    std::swap(used_, o.used_); std::swap(seed_, o.seed_); std::swap(hash_, o.hash_); std::swap(eq_, o.eq_);
  }
  friend void swap(RawTable &a, RawTable &b) noexcept { a.swap(b); }
  iterator begin() { return Begin<iterator>(); }
  iterator end() { return At_<iterator>(cap_); }
  const_iterator begin() const { return Begin<const_iterator>(); }
  const_iterator end() const { return At_<const_iterator>(cap_); }
  const_iterator cbegin() const { return begin(); }
  const_iterator cend() const { return end(); }
  size_t size() const { return size_; }
  bool empty() const { return size_ == 0; }
  size_t capacity() const { return cap_; }
  size_t bucket_count() const { return cap_; }
  size_t max_size() const { return ~size_t{0}; }
  float load_factor() const { return cap_ ? float(size_) / cap_ : 0; }
  void max_load_factor(float) {}
  void rehash(size_t n) { if (n > cap_) Grow(n); }
  void reserve(size_t n) { if (n * 4 / 3 + 1 > cap_) Grow(n * 4 / 3 + 1); }
  void clear() { Destroy(); }
  template <class K = Key> iterator find(const key_arg<K> &k) { return At_<iterator>(Find(k)); }
  template <class K = Key> const_iterator find(const key_arg<K> &k) const { return At_<const_iterator>(Find(k)); }
  template <class K = Key> bool contains(const key_arg<K> &k) const { return Find(k) != cap_; }
  template <class K = Key> size_t count(const key_arg<K> &k) const { return Find(k) != cap_; }
  template <class K = Key> std::pair<iterator, iterator> equal_range(const key_arg<K> &k) { auto i = find<K>(k); if (i == end()) return {i, i}; auto j = i; return {i, ++j}; }
  template <class... A> std::pair<iterator, bool> emplace(A &&...a) {
    return InsertTemp(Value(std::forward<A>(a)...));
  }
  template <class... A> iterator emplace_hint(const_iterator, A &&...a) { return emplace(std::forward<A>(a)...).first; }
  std::pair<iterator, bool> insert(const Value &v) { if (size_t i = Find(KeyOf()(v)); i != cap_) return {At_<iterator>(i), false}; return InsertTemp(Value(v)); }
  std::pair<iterator, bool> insert(Value &&v) { return InsertTemp(std::move(v)); }
  template <class T, class = std::enable_if_t<!std::is_same_v<std::decay_t<T>, Value> && std::is_constructible_v<Value, T &&>>>
  std::pair<iterator, bool> insert(T &&v) { return InsertTemp(Value(std::forward<T>(v))); }
  template <class T> iterator insert(const_iterator, T &&v) { return insert(std::forward<T>(v)).first; }
  template <class It, class = typename std::iterator_traits<It>::iterator_category> void insert(It b, It e) { for (; b != e; ++b) insert(*b); }
  void insert(std::initializer_list<Value> l) { for (const auto &v : l) insert(v); }
  void erase(const_iterator i) { EraseAt(i.c - ctrl_); }
  void erase(iterator i) { EraseAt(i.c - ctrl_); }
  iterator erase(const_iterator b, const_iterator e) { while (b != e) { auto n = b; ++n; EraseAt(b.c - ctrl_); b = n; } return At_<iterator>(b.c ? b.c - ctrl_ : 0); }
  template <class K = Key, std::enable_if_t<!std::is_convertible_v<K, const_iterator>, int> = 0> size_t erase(const key_arg<K> &k) { size_t i = Find(k); if (i == cap_) return 0; EraseAt(i); return 1; }
  struct node_type { std::optional<Value> v; bool empty() const { return !v; } explicit operator bool() const { return !!v; }
    Value &value() { return *v; } auto &key() { return const_cast<Key &>(KeyOf()(*v)); } template <class V = Value> auto &mapped() { return v->second; } };
  node_type extract(const_iterator i) { node_type n; n.v.emplace(std::move(*const_cast<Value *>(i.Ptr()))); EraseAt(i.c - ctrl_); return n; }
  template <class K = Key, std::enable_if_t<!std::is_convertible_v<K, const_iterator>, int> = 0> node_type extract(const key_arg<K> &k) { auto i = find<K>(k); if (i == end()) return {}; return extract(const_iterator(i)); }
  std::pair<iterator, bool> insert(node_type &&n) { if (!n) return {end(), false}; return InsertTemp(std::move(*n.v)); }
  template <class O> void merge(O &o) { for (auto i = o.begin(); i != o.end();) { auto j = i++; if (!contains(KeyOf()(*j))) { InsertTemp(std::move(*j)); o.erase(j); } } }
  template <class O> void merge(O &&o) { merge(o); }
  friend bool operator==(const RawTable &a, const RawTable &b) {
    if (a.size() != b.size()) return false;
    for (const auto &v : a) { auto i = b.Find(KeyOf()(v)); if (i == b.cap_ || !(*b.At(i) == v)) return false; }
    return true;
  }
  friend bool operator!=(const RawTable &a, const RawTable &b) { return !(a == b); }
  hasher hash_function() const { return hash_; }
  key_equal key_eq() const { return eq_; }
  template <class H> friend H AbslHashValue(H h, const RawTable &t) {
    uint64_t x = 0; for (const auto &v : t) x += shim_internal::HState::AddOne(shim_internal::HState{}, v).h; return H::combine(std::move(h), x, t.size()); }
 protected:
  template <class I> I At_(size_t i) const { I r; r.c = ctrl_ + i; r.s = slots_ + i; r.e = ctrl_ + cap_; if (!ctrl_) { r.c = r.e = nullptr; r.s = nullptr; } return r; }
  template <class I> I Begin() const { I r = At_<I>(0); if (ctrl_) r.Skip(); return r; }
  template <class K> size_t Start(const K &k) const { return Mix(hash_(k), seed_) & (cap_ - 1); }
  template <class K> size_t Find(const K &k) const {
    if (!cap_) return 0;
    for (size_t i = Start(k);; i = (i + 1) & (cap_ - 1)) {
      if (ctrl_[i] == 0) return cap_;
      if (ctrl_[i] == 2 && eq_(KeyOf()(*At(i)), k)) return i;
    }
  }
  template <class K> size_t PrepareInsert(const K &k) {
    if ((used_ + 1) * 4 > cap_ * 3) Grow(std::max<size_t>(8, size_ * 2 + 2));
    size_t i = Start(k); while (ctrl_[i] == 2) i = (i + 1) & (cap_ - 1);
    if (ctrl_[i] == 0) ++used_;
    return i;
  }
  std::pair<iterator, bool> InsertTemp(Value &&v) {
    if (size_t i = Find(KeyOf()(v)); i != cap_) return {At_<iterator>(i), false};
    size_t i = PrepareInsert(KeyOf()(v));
    if constexpr (kNode) slots_[i] = new Value(std::move(v)); else new (&slots_[i]) Value(std::move(v));
    ctrl_[i] = 2; ++size_; return {At_<iterator>(i), true};
  }
  template <class K, class... A> std::pair<iterator, bool> TryEmplace(const K &k, A &&...a) {
    if (size_t i = Find(k); i != cap_) return {At_<iterator>(i), false};
    size_t i = PrepareInsert(k);
    if constexpr (kNode) slots_[i] = new Value(std::forward<A>(a)...); else new (&slots_[i]) Value(std::forward<A>(a)...);
    ctrl_[i] = 2; ++size_; return {At_<iterator>(i), true};
  }
  void EraseAt(size_t i) {
    if (ctrl_[i] != 2) { fprintf(stderr, "vshim: erase of a dead element\n"); abort(); }
    if constexpr (kNode) delete slots_[i]; else At(i)->~Value();
    ctrl_[i] = 1; --size_;
  }
  void Destroy() {
    if (!ctrl_) return;
    for (size_t i = 0; i < cap_; ++i) if (ctrl_[i] == 2) { if constexpr (kNode) delete slots_[i]; else At(i)->~Value(); }
    free(ctrl_); ::operator delete(slots_, std::align_val_t(alignof(Slot))); ctrl_ = nullptr; slots_ = nullptr; cap_ = size_ = used_ = 0;
  }
  void Grow(size_t want) {
    size_t nc = 8; while (nc * 3 < want * 4) nc *= 2;
    uint8_t *oc = ctrl_; Slot *os = slots_; size_t ocap = cap_;
    ctrl_ = static_cast<uint8_t *>(calloc(nc, 1)); slots_ = static_cast<Slot *>(::operator new(nc * sizeof(Slot), std::align_val_t(alignof(Slot)))); cap_ = nc; used_ = size_;
    for (size_t i = 0; i < ocap; ++i) if (oc[i] == 2) {
      if constexpr (kNode) { size_t j = Slot_(KeyOf()(*os[i])); slots_[j] = os[i]; ctrl_[j] = 2; }
      else { Value *p = reinterpret_cast<Value *>(&os[i]); size_t j = Slot_(KeyOf()(*p)); new (&slots_[j]) Value(std::move(*p)); p->~Value(); ctrl_[j] = 2; }
    }
    free(oc); ::operator delete(os, std::align_val_t(alignof(Slot)));
  }
  template <class K> size_t Slot_(const K &k) const { size_t i = Start(k); while (ctrl_[i] == 2) i = (i + 1) & (cap_ - 1); return i; }
};
struct Ident { template <class T> const T &operator()(const T &t) const { return t; } };
struct First { template <class T> const auto &operator()(const T &t) const { return t.first; } };

template <class K, class V, class H, class E, bool N>
class MapT : public RawTable<K, std::pair<const K, V>, First, H, E, N> {
  using B = RawTable<K, std::pair<const K, V>, First, H, E, N>;
  template <class T> using key_arg = typename B::template key_arg<T>;
 public:
  using mapped_type = V; using typename B::iterator; using typename B::const_iterator; using value_type = typename B::value_type;
  using B::B;
  MapT() = default;
  MapT(std::initializer_list<value_type> l) : B(l) {}
  template <class T = K> V &operator[](const key_arg<T> &k) { return try_emplace<T>(k).first->second; }
  template <class T = K, std::enable_if_t<!std::is_lvalue_reference_v<T>, int> = 0> V &operator[](key_arg<T> &&k) { return try_emplace<T>(std::move(k)).first->second; }
  template <class T = K> V &at(const key_arg<T> &k) { auto i = this->template find<T>(k); if (i == this->end()) Oor(); return i->second; }
  template <class T = K> const V &at(const key_arg<T> &k) const { auto i = this->template find<T>(k); if (i == this->end()) Oor(); return i->second; }
  template <class T = K, class... A> std::pair<iterator, bool> try_emplace(const key_arg<T> &k, A &&...a) {
    return this->TryEmplace(k, std::piecewise_construct, std::forward_as_tuple(k), std::forward_as_tuple(std::forward<A>(a)...)); }
  template <class T = K, class... A, std::enable_if_t<!std::is_lvalue_reference_v<T>, int> = 0> std::pair<iterator, bool> try_emplace(key_arg<T> &&k, A &&...a) {
    return this->TryEmplace(k, std::piecewise_construct, std::forward_as_tuple(std::move(k)), std::forward_as_tuple(std::forward<A>(a)...)); }
  template <class T = K, class VV> std::pair<iterator, bool> insert_or_assign(const key_arg<T> &k, VV &&v) {
    auto i = this->template find<T>(k); if (i != this->end()) { i->second = std::forward<VV>(v); return {i, false}; }
    return this->TryEmplace(k, std::piecewise_construct, std::forward_as_tuple(k), std::forward_as_tuple(std::forward<VV>(v))); }
 private:
  [[noreturn]] static void Oor() { throw std::out_of_range("absl::flat_hash_map<>::at"); }
};
}  // namespace shim_internal

template <class T> using Hash = shim_internal::DefHash<T>;
template <class T> size_t HashOf(const T &t) { return Hash<T>()(t); }
#define VSHIM_DH(K) typename shim_internal::HashEqDef<K>::H
#define VSHIM_DE(K) typename shim_internal::HashEqDef<K>::E
namespace container_internal_shim {}
template <class K, class V, class H = VSHIM_DH(K), class E = VSHIM_DE(K), class A = std::allocator<std::pair<const K, V>>>
class flat_hash_map : public shim_internal::MapT<K, V, H, E, false> { using B = shim_internal::MapT<K, V, H, E, false>; public: using B::B; flat_hash_map() = default; flat_hash_map(std::initializer_list<typename B::value_type> l) : B(l) {} };
template <class K, class V, class H = VSHIM_DH(K), class E = VSHIM_DE(K), class A = std::allocator<std::pair<const K, V>>>
class node_hash_map : public shim_internal::MapT<K, V, H, E, true> { using B = shim_internal::MapT<K, V, H, E, true>; public: using B::B; node_hash_map() = default; node_hash_map(std::initializer_list<typename B::value_type> l) : B(l) {} };
template <class K, class H = VSHIM_DH(K), class E = VSHIM_DE(K), class A = std::allocator<K>>
class flat_hash_set : public shim_internal::RawTable<K, K, shim_internal::Ident, H, E, false> { using B = shim_internal::RawTable<K, K, shim_internal::Ident, H, E, false>; public: using B::B; flat_hash_set() = default; flat_hash_set(std::initializer_list<K> l) : B(l) {} };
template <class K, class H = VSHIM_DH(K), class E = VSHIM_DE(K), class A = std::allocator<K>>
class node_hash_set : public shim_internal::RawTable<K, K, shim_internal::Ident, H, E, true> { using B = shim_internal::RawTable<K, K, shim_internal::Ident, H, E, true>; public: using B::B; node_hash_set() = default; node_hash_set(std::initializer_list<K> l) : B(l) {} };
template <class K, class H, class E, class A, class P> size_t erase_if(flat_hash_set<K, H, E, A> &c, P p) { size_t n = 0; for (auto i = c.begin(); i != c.end();) { auto j = i++; if (p(*j)) { c.erase(j); ++n; } } return n; }
template <class K, class H, class E, class A, class P> size_t erase_if(node_hash_set<K, H, E, A> &c, P p) { size_t n = 0; for (auto i = c.begin(); i != c.end();) { auto j = i++; if (p(*j)) { c.erase(j); ++n; } } return n; }
template <class K, class V, class H, class E, class A, class P> size_t erase_if(flat_hash_map<K, V, H, E, A> &c, P p) { size_t n = 0; for (auto i = c.begin(); i != c.end();) { auto j = i++; if (p(*j)) { c.erase(j); ++n; } } return n; }
template <class K, class V, class H, class E, class A, class P> size_t erase_if(node_hash_map<K, V, H, E, A> &c, P p) { size_t n = 0; for (auto i = c.begin(); i != c.end();) { auto j = i++; if (p(*j)) { c.erase(j); ++n; } } return n; }

// ---------------------------------------------------------------- btree
namespace shim_internal {
struct StrLess { using is_transparent = void; bool operator()(string_view a, string_view b) const { return a < b; } };
template <class C, class K> struct BCmp { using type = C; };
template <> struct BCmp<std::less<std::string>, std::string> { using type = StrLess; };
template <> struct BCmp<std::less<string_view>, string_view> { using type = StrLess; };
}
#define VSHIM_BTREE_EXTRAS(SELF)                                                                        \
 public:                                                                                                \
  using B::B;                                                                                           \
  SELF() = default;                                                                                     \
  template <class KK> bool contains(const KK &k) const { return this->find(k) != this->end(); }         \
  bool contains(const typename B::key_type &k) const { return this->find(k) != this->end(); }
template <class K, class C = std::less<K>, class A = std::allocator<K>>
class btree_set : public std::set<K, typename shim_internal::BCmp<C, K>::type> { using B = std::set<K, typename shim_internal::BCmp<C, K>::type>; VSHIM_BTREE_EXTRAS(btree_set) };
template <class K, class C = std::less<K>, class A = std::allocator<K>>
class btree_multiset : public std::multiset<K, typename shim_internal::BCmp<C, K>::type> { using B = std::multiset<K, typename shim_internal::BCmp<C, K>::type>; VSHIM_BTREE_EXTRAS(btree_multiset) };
template <class K, class V, class C = std::less<K>, class A = std::allocator<std::pair<const K, V>>>
class btree_map : public std::map<K, V, typename shim_internal::BCmp<C, K>::type> { using B = std::map<K, V, typename shim_internal::BCmp<C, K>::type>; VSHIM_BTREE_EXTRAS(btree_map) };
template <class K, class V, class C = std::less<K>, class A = std::allocator<std::pair<const K, V>>>
class btree_multimap : public std::multimap<K, V, typename shim_internal::BCmp<C, K>::type> { using B = std::multimap<K, V, typename shim_internal::BCmp<C, K>::type>; VSHIM_BTREE_EXTRAS(btree_multimap) };
template <class K, class C, class A, class P> size_t erase_if(btree_set<K, C, A> &c, P p) { size_t n = 0; for (auto i = c.begin(); i != c.end();) if (p(*i)) { i = c.erase(i); ++n; } else ++i; return n; }
template <class K, class V, class C, class A, class P> size_t erase_if(btree_map<K, V, C, A> &c, P p) { size_t n = 0; for (auto i = c.begin(); i != c.end();) if (p(*i)) { i = c.erase(i); ++n; } else ++i; return n; }
template <class T, size_t N, class A = std::allocator<T>> using InlinedVector = std::vector<T>;
template <class T, size_t N = 0, class A = std::allocator<T>> using FixedArray = std::vector<T>;

// ---------------------------------------------------------------- algorithms
namespace shim_internal { template <class C> auto B(C &c) { using std::begin; return begin(c); } template <class C> auto E(C &c) { using std::end; return end(c); } }
#define VB shim_internal::B(c)
#define VE shim_internal::E(c)
template <class C, class P> bool c_all_of(const C &c, P p) { return std::all_of(VB, VE, p); }
template <class C, class P> bool c_any_of(const C &c, P p) { return std::any_of(VB, VE, p); }
template <class C, class P> bool c_none_of(const C &c, P p) { return std::none_of(VB, VE, p); }
template <class C, class F> std::decay_t<F> c_for_each(C &&c, F &&f) { return std::for_each(VB, VE, std::forward<F>(f)); }
template <class C, class T> auto c_find(C &c, T &&v) { return std::find(VB, VE, v); }
template <class C, class T> bool c_contains(const C &c, T &&v) { return std::find(VB, VE, v) != VE; }
template <class C, class P> auto c_find_if(C &c, P p) { return std::find_if(VB, VE, p); }
template <class C, class P> auto c_find_if_not(C &c, P p) { return std::find_if_not(VB, VE, p); }
template <class C, class T> auto c_count(const C &c, T &&v) { return std::count(VB, VE, v); }
template <class C, class P> auto c_count_if(const C &c, P p) { return std::count_if(VB, VE, p); }
template <class C1, class C2> bool c_equal(const C1 &a, const C2 &b) { return std::equal(std::begin(a), std::end(a), std::begin(b), std::end(b)); }
template <class C1, class C2, class P> bool c_equal(const C1 &a, const C2 &b, P p) { return std::equal(std::begin(a), std::end(a), std::begin(b), std::end(b), p); }
template <class C, class O> O c_copy(const C &c, O o) { return std::copy(VB, VE, o); }
template <class C, class S, class O> O c_copy_n(const C &c, S n, O o) { return std::copy_n(VB, n, o); }
template <class C, class O, class P> O c_copy_if(const C &c, O o, P p) { return std::copy_if(VB, VE, o, p); }
template <class C, class O> O c_move(C &&c, O o) { return std::move(VB, VE, o); }
template <class C, class O, class F> O c_transform(const C &c, O o, F f) { return std::transform(VB, VE, o, f); }
template <class C1, class C2, class O, class F> O c_transform(const C1 &a, const C2 &b, O o, F f) {
  auto i = std::begin(a); auto j = std::begin(b); for (; i != std::end(a) && j != std::end(b); ++i, ++j) *o++ = f(*i, *j); return o; }
template <class C, class T> void c_fill(C &c, const T &v) { std::fill(VB, VE, v); }
template <class C, class G> void c_generate(C &c, G g) { std::generate(VB, VE, g); }
template <class C, class T> void c_replace(C &c, const T &a, const T &b) { std::replace(VB, VE, a, b); }
template <class C> void c_reverse(C &c) { std::reverse(VB, VE); }
template <class C, class U> void c_shuffle(C &c, U &&g) { std::shuffle(VB, VE, g); }
template <class C> void c_sort(C &c) { std::sort(VB, VE); }
template <class C, class L> void c_sort(C &c, L l) { std::sort(VB, VE, l); }
template <class C> void c_stable_sort(C &c) { std::stable_sort(VB, VE); }
template <class C, class L> void c_stable_sort(C &c, L l) { std::stable_sort(VB, VE, l); }
template <class C> bool c_is_sorted(const C &c) { return std::is_sorted(VB, VE); }
template <class C, class L> bool c_is_sorted(const C &c, L l) { return std::is_sorted(VB, VE, l); }
template <class C, class It> void c_nth_element(C &c, It n) { std::nth_element(VB, n, VE); }
template <class C, class It, class L> void c_nth_element(C &c, It n, L l) { std::nth_element(VB, n, VE, l); }
template <class C, class T> auto c_lower_bound(C &c, const T &v) { return std::lower_bound(VB, VE, v); }
template <class C, class T, class L> auto c_lower_bound(C &c, const T &v, L l) { return std::lower_bound(VB, VE, v, l); }
template <class C, class T> auto c_upper_bound(C &c, const T &v) { return std::upper_bound(VB, VE, v); }
template <class C, class T, class L> auto c_upper_bound(C &c, const T &v, L l) { return std::upper_bound(VB, VE, v, l); }
template <class C, class T> bool c_binary_search(const C &c, const T &v) { return std::binary_search(VB, VE, v); }
template <class C, class P> auto c_partition(C &c, P p) { return std::partition(VB, VE, p); }
template <class C, class P> auto c_stable_partition(C &c, P p) { return std::stable_partition(VB, VE, p); }
template <class C, class P> auto c_partition_point(C &c, P p) { return std::partition_point(VB, VE, p); }
template <class C> auto c_max_element(C &c) { return std::max_element(VB, VE); }
template <class C, class L> auto c_max_element(C &c, L l) { return std::max_element(VB, VE, l); }
template <class C> auto c_min_element(C &c) { return std::min_element(VB, VE); }
template <class C, class L> auto c_min_element(C &c, L l) { return std::min_element(VB, VE, l); }
template <class C> auto c_adjacent_find(C &c) { return std::adjacent_find(VB, VE); }
template <class C, class P> auto c_adjacent_find(C &c, P p) { return std::adjacent_find(VB, VE, p); }
template <class C, class T> std::decay_t<T> c_accumulate(const C &c, T &&i) { return std::accumulate(VB, VE, std::forward<T>(i)); }
template <class C, class T, class F> std::decay_t<T> c_accumulate(const C &c, T &&i, F f) { return std::accumulate(VB, VE, std::forward<T>(i), f); }
template <class C1, class C2, class T> std::decay_t<T> c_inner_product(const C1 &a, const C2 &b, T &&i) { return std::inner_product(std::begin(a), std::end(a), std::begin(b), std::forward<T>(i)); }
template <class C, class T> void c_iota(C &c, const T &v) { std::iota(VB, VE, v); }
template <class C1, class C2, class O> O c_set_union(const C1 &a, const C2 &b, O o) { return std::set_union(a.begin(), a.end(), b.begin(), b.end(), o); }
template <class C1, class C2, class O, class L> O c_set_union(const C1 &a, const C2 &b, O o, L l) { return std::set_union(a.begin(), a.end(), b.begin(), b.end(), o, l); }
template <class C1, class C2, class O> O c_set_intersection(const C1 &a, const C2 &b, O o) { return std::set_intersection(a.begin(), a.end(), b.begin(), b.end(), o); }
template <class C1, class C2, class O> O c_set_difference(const C1 &a, const C2 &b, O o) { return std::set_difference(a.begin(), a.end(), b.begin(), b.end(), o); }
template <class C1, class C2> bool c_includes(const C1 &a, const C2 &b) { return std::includes(a.begin(), a.end(), b.begin(), b.end()); }
template <class C1, class C2, class O> O c_merge(const C1 &a, const C2 &b, O o) { return std::merge(a.begin(), a.end(), b.begin(), b.end(), o); }
template <class C1, class C2> bool c_is_permutation(const C1 &a, const C2 &b) { return std::is_permutation(a.begin(), a.end(), b.begin(), b.end()); }
template <class C> auto c_distance(const C &c) { return std::distance(VB, VE); }
template <class C, class O> O c_unique_copy(const C &c, O o) { return std::unique_copy(VB, VE, o); }
template <class C1, class C2> bool c_lexicographical_compare(const C1 &a, const C2 &b) { return std::lexicographical_compare(a.begin(), a.end(), b.begin(), b.end()); }
#undef VB
#undef VE
template <class C, class V> bool linear_search(C b, C e, const V &v) { return std::find(b, e, v) != e; }

// ---------------------------------------------------------------- sync, time
class Mutex {
 public:
  Mutex() = default; Mutex(const Mutex &) = delete;
  void Lock() { m_.lock(); } void Unlock() { m_.unlock(); } bool TryLock() { return m_.try_lock(); }
  void lock() { m_.lock(); } void unlock() { m_.unlock(); }
  void ReaderLock() { m_.lock(); } void ReaderUnlock() { m_.unlock(); } void WriterLock() { m_.lock(); } void WriterUnlock() { m_.unlock(); }
  void AssertHeld() const {}
  std::mutex m_;
};
class MutexLock { Mutex *m_; public: explicit MutexLock(Mutex *m) : m_(m) { m_->Lock(); } explicit MutexLock(Mutex &m) : m_(&m) { m_->Lock(); } ~MutexLock() { m_->Unlock(); } MutexLock(const MutexLock &) = delete; };
using ReaderMutexLock = MutexLock; using WriterMutexLock = MutexLock;
class CondVar { std::condition_variable_any c_; public: void Wait(Mutex *m) { c_.wait(m->m_); } void Signal() { c_.notify_one(); } void SignalAll() { c_.notify_all(); } };

class Duration { public: double s = 0; friend Duration operator-(Duration a, Duration b) { return {a.s - b.s}; } friend Duration operator+(Duration a, Duration b) { return {a.s + b.s}; }
  friend bool operator<(Duration a, Duration b) { return a.s < b.s; } friend bool operator==(Duration a, Duration b) { return a.s == b.s; }
  friend std::ostream &operator<<(std::ostream &o, Duration d) { return o << d.s << "s"; } };
inline Duration Seconds(double n) { return {n}; } inline Duration Milliseconds(double n) { return {n / 1e3}; } inline Duration Microseconds(double n) { return {n / 1e6}; } inline Duration Nanoseconds(double n) { return {n / 1e9}; }
inline Duration ZeroDuration() { return {}; }
inline double ToDoubleSeconds(Duration d) { return d.s; } inline int64_t ToInt64Seconds(Duration d) { return (int64_t)d.s; } inline int64_t ToInt64Milliseconds(Duration d) { return (int64_t)(d.s * 1e3); }
inline std::string FormatDuration(Duration d) { return StrFormat("%gs", d.s); }
class Time { public: double t = 0; friend Duration operator-(Time a, Time b) { return {a.t - b.t}; } friend Time operator+(Time a, Duration b) { return {a.t + b.s}; } friend bool operator<(Time a, Time b) { return a.t < b.t; } friend bool operator==(Time a, Time b) { return a.t == b.t; } };
inline Time Now() { return {std::chrono::duration<double>(std::chrono::system_clock::now().time_since_epoch()).count()}; }
inline Time FromUnixSeconds(int64_t s) { return {(double)s}; } inline Time UnixEpoch() { return {0}; } inline int64_t ToUnixSeconds(Time t) { return (int64_t)std::floor(t.t); } inline Time FromTimeT(time_t t) { return {(double)t}; } inline time_t ToTimeT(Time t) { return (time_t)t.t; }

// ---------------------------------------------------------------- flags
namespace shim_internal {
struct FlagBase { std::string name, help; virtual bool Parse(string_view v, std::string *err) = 0; virtual bool IsBool() const = 0; virtual std::string Cur() const = 0; virtual ~FlagBase() {} };
inline std::map<std::string, FlagBase *> &FlagReg() { static auto *m = new std::map<std::string, FlagBase *>; return *m; }
template <class T> bool ParseFlagV(string_view s, T *out, std::string *err) {
  if constexpr (std::is_same_v<T, bool>) return SimpleAtob(s, out);
  else if constexpr (std::is_floating_point_v<T>) { double d; if (!SimpleAtod(s, &d)) return false; *out = d; return true; }
  else if constexpr (std::is_integral_v<T>) { if (StartsWith(s, "0x")) return SimpleHexAtoi(s.substr(2), out); return SimpleAtoi(s, out); }
  else if constexpr (std::is_same_v<T, std::string>) { *out = std::string(s); return true; }
  else if constexpr (std::is_same_v<T, std::vector<std::string>>) { out->clear(); if (!s.empty()) *out = StrSplit(s, ','); return true; }
  else if constexpr (IsOptT<T>::value) { if (s.empty()) { out->reset(); return true; } typename T::value_type v; if (!ParseFlagV(s, &v, err)) return false; *out = v; return true; }
  else return AbslParseFlag(s, out, err);
}
}  // namespace shim_internal
template <class T> class Flag : public shim_internal::FlagBase {
 public:
  Flag(const char *n, T def, const char *h) : v_(std::move(def)) { name = n; help = h; shim_internal::FlagReg()[n] = this; }
  T Get() const { std::lock_guard<std::mutex> l(m_); return v_; }
  void Set(const T &v) { std::lock_guard<std::mutex> l(m_); v_ = v; }
  bool Parse(string_view s, std::string *e) override { T t; if (!shim_internal::ParseFlagV(s, &t, e)) return false; Set(t); return true; }
  bool IsBool() const override { return std::is_same_v<T, bool>; }
  std::string Cur() const override { return ""; }
  std::string Name() const { return name; }
 private:
  mutable std::mutex m_; T v_;
};
template <class T> T GetFlag(const Flag<T> &f) { return f.Get(); }
template <class T, class V> void SetFlag(Flag<T> *f, const V &v) { f->Set(T(v)); }
#define ABSL_FLAG(Type, name, def, help) ::absl::Flag<Type> FLAGS_##name(#name, def, help)
#define ABSL_DECLARE_FLAG(Type, name) extern ::absl::Flag<Type> FLAGS_##name
#define ABSL_RETIRED_FLAG(Type, name, def, help) static ::absl::Flag<Type> RETIRED_FLAGS_##name(#name, def, help)
namespace shim_internal { inline std::string &Usage() { static auto *s = new std::string; return *s; } }
inline void SetProgramUsageMessage(string_view m) { shim_internal::Usage() = std::string(m); }
inline string_view ProgramUsageMessage() { return shim_internal::Usage(); }
inline std::vector<char *> ParseCommandLine(int argc, char **argv) {
  std::vector<char *> rest; if (argc > 0) rest.push_back(argv[0]);
  bool stop = false;
  for (int i = 1; i < argc; ++i) {
    string_view a(argv[i]);
    if (stop || a.size() < 2 || a[0] != '-') { rest.push_back(argv[i]); continue; }
    if (a == "--") { stop = true; continue; }
    a.remove_prefix(a[1] == '-' ? 2 : 1);
    std::string n(a), v; bool has = false; if (auto e = n.find('='); e != n.npos) { v = n.substr(e + 1); n.resize(e); has = true; }
    auto &reg = shim_internal::FlagReg(); auto it = reg.find(n); bool neg = false;
    if (it == reg.end() && StartsWith(n, "no") && !has) { it = reg.find(n.substr(2)); neg = it != reg.end() && it->second->IsBool(); if (!neg) it = reg.end(); }
    if (it == reg.end()) { if (n == "undefok" || n == "logtostderr" || n == "minloglevel") continue; fprintf(stderr, "ERROR: Unknown command line flag '%s'\n", n.c_str()); exit(1); }
    if (neg) v = "false"; else if (!has) { if (it->second->IsBool()) v = "true"; else if (i + 1 < argc) v = argv[++i]; else { fprintf(stderr, "ERROR: Missing value for flag '%s'\n", n.c_str()); exit(1); } }
    std::string err; if (!it->second->Parse(v, &err)) { fprintf(stderr, "ERROR: Illegal value '%s' specified for flag '%s'\n", v.c_str(), n.c_str()); exit(1); }
  }
  return rest;
}

namespace debugging_internal { bool Demangle(const char *mangled, char *out, size_t out_size); }
}  // namespace absl

#include <cxxabi.h>
namespace absl { namespace debugging_internal {
inline bool Demangle(const char *mangled, char *out, size_t out_size) {
  int st = 0; char *d = abi::__cxa_demangle(mangled, nullptr, nullptr, &st);
  bool ok = st == 0 && d && strlen(d) < out_size; if (ok) strcpy(out, d); free(d); return ok;
}
} }
#endif
