// Reference model of the Unicode encoding forms (Unicode 15 section 3.9), and buffers of code units.
#pragma once
#include "vp.hpp"
namespace ref_utf {
using u8 = unsigned char;
constexpr char32_t FFFD = 0xFFFD;

inline std::size_t capacity = 48;  // of the sinks made from now on; a harness raises it for long input
inline void expect_units (std::size_t n) { if (n * 4 + 8 > capacity) capacity = n * 4 + 8; }
template <class T> struct sink {
  std::size_t const cap = capacity;
  T* d = new T[cap];
  std::size_t n = 0;
  sink () = default;
  sink (sink const&) = delete;
  ~sink () { delete[] d; }
  void add (T v) { d[n++] = v; }
  void end (T* p) { n = static_cast<std::size_t> (p - d); }
};
template <class T> bool same (sink<T> const& a, sink<T> const& b) {
  if (a.n != b.n) return false;
  bool r = true;
  for (std::size_t i = 0; i < a.n; ++i) r = r & (a.d[i] == b.d[i]);
  return r;
}
template <class T> void obs (sink<T> const& s) { vp_obs (std::string_view (reinterpret_cast<char const*> (s.d), s.n * sizeof (T))); }

inline bool surrogate (char32_t c) { return (c & 0xFFFFF800) == 0xD800; }
inline bool scalar (char32_t c) { return !surrogate (c) & (c <= 0x10FFFF); }

// The encoding forms, Unicode 15 section 3.9 (tables 3-5 to 3-7)
inline void enc (char32_t c, sink<char8_t>& o) {
  if (c < 0x80) { o.add (static_cast<char8_t> (c)); return; }
  if (c < 0x800) { o.add (static_cast<char8_t> (0xC0 + c / 64)); o.add (static_cast<char8_t> (0x80 + c % 64)); return; }
  if (c < 0x10000) { o.add (static_cast<char8_t> (0xE0 + c / 4096)); o.add (static_cast<char8_t> (0x80 + c / 64 % 64)); o.add (static_cast<char8_t> (0x80 + c % 64)); return; }
  o.add (static_cast<char8_t> (0xF0 + c / 262144)); o.add (static_cast<char8_t> (0x80 + c / 4096 % 64)); o.add (static_cast<char8_t> (0x80 + c / 64 % 64)); o.add (static_cast<char8_t> (0x80 + c % 64));
}
inline void enc (char32_t c, sink<char16_t>& o) {
  if (c < 0x10000) { o.add (static_cast<char16_t> (c)); return; }
  c -= 0x10000;
  o.add (static_cast<char16_t> (0xD800 + c / 1024)); o.add (static_cast<char16_t> (0xDC00 + c % 1024));
}
inline void enc (char32_t c, sink<char32_t>& o) { o.add (c); }

inline bool in (u8 v, unsigned lo, unsigned hi) { return (v >= lo) & (v <= hi); }
// The well-formed sequence at s[i]: its length, 0 if there is none; part: the input ends inside one
inline std::size_t dec (char8_t const* s, std::size_t i, std::size_t n, char32_t& c, bool& part) {
  part = false;
  u8 b = s[i];
  if (b < 0x80) { c = b; return 1; }
  unsigned lo = 0x80, hi = 0xBF; std::size_t len = 0;
  if (in (b, 0xC2, 0xDF)) { len = 2; c = b - 0xC0u; }
  else if (in (b, 0xE0, 0xEF)) { len = 3; c = b - 0xE0u; if (b == 0xE0) lo = 0xA0; if (b == 0xED) hi = 0x9F; }
  else if (in (b, 0xF0, 0xF4)) { len = 4; c = b - 0xF0u; if (b == 0xF0) lo = 0x90; if (b == 0xF4) hi = 0x8F; }
  else return 0;
  for (std::size_t k = 1; k < len; ++k) {
    if (i + k >= n) { part = true; return 0; }
    u8 t = s[i + k];
    if (!in (t, lo, hi)) return 0;
    c = c * 64 + (t - 0x80u);
    lo = 0x80; hi = 0xBF;
  }
  return len;
}
inline std::size_t dec (char16_t const* s, std::size_t i, std::size_t n, char32_t& c, bool& part) {
  part = false;
  char16_t a = s[i];
  if (!surrogate (a)) { c = a; return 1; }
  if (a >= 0xDC00) return 0;
  if (i + 1 >= n) { part = true; return 0; }
  char16_t b = s[i + 1];
  if ((b & 0xFC00) != 0xDC00) return 0;
  c = 0x10000 + (a - 0xD800u) * 1024 + (b - 0xDC00u);
  return 2;
}
inline std::size_t dec (char32_t const* s, std::size_t i, std::size_t, char32_t& c, bool& part) { part = false; c = s[i]; return scalar (c) ? 1 : 0; }

}  // namespace ref_utf
