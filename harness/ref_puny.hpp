// Reference model of RFC 3492 (Punycode), written from the RFC's pseudocode (sections 5 and 6).
#pragma once
#include "vp.hpp"
#include <string>
namespace ref_puny {
using u64 = std::uint64_t;
// RFC 3492 section 5, parameter values for Punycode
constexpr u64 base = 36, tmin = 1, tmax = 26, skew = 38, damp = 700, initial_bias = 72, initial_n = 128;
// section 6.1
inline u64 adapt (u64 delta, u64 numpoints, bool firsttime) {
  if (firsttime) delta = delta / damp; else delta = delta / 2;
  delta = delta + delta / numpoints;
  u64 k = 0;
  while (delta > ((base - tmin) * tmax) / 2) { delta = delta / (base - tmin); k = k + base; }
  return k + (((base - tmin + 1) * delta) / (delta + skew));
}
inline u64 threshold (u64 k, u64 bias) {
  if (k <= bias + tmin) return tmin;
  if (k >= bias + tmax) return tmax;
  return k - bias;
}
inline char digit (u64 v) { auto d = static_cast<unsigned> (v); return static_cast<char> (d < 26 ? 'a' + d : '0' + (d - 26)); }
// section 6.3
inline std::string ref_encode (std::u32string const& in) {
  std::string out;
  u64 n = initial_n, delta = 0, bias = initial_bias, b = 0;
  for (char32_t c : in) if (c < 0x80) { out.push_back (static_cast<char> (c)); ++b; }
  u64 h = b;
  if (b > 0) out.push_back ('-');
  while (h < in.size ()) {
    u64 m = 0xFFFFFFFF;
    for (char32_t c : in) if (c >= n) if (c < m) m = c;
    delta = delta + (m - n) * (h + 1);
    n = m;
    for (char32_t c : in) {
      if (c < n) delta++;
      if (c == n) {
        u64 q = delta;
        for (u64 k = base;; k += base) {
          u64 t = threshold (k, bias);
          if (q < t) break;
          out.push_back (digit (t + (q - t) % (base - t)));
          q = (q - t) / (base - t);
        }
        out.push_back (digit (q));
        bias = adapt (delta, h + 1, h == b);
        delta = 0;
        ++h;
      }
    }
    ++delta;
    ++n;
  }
  return out;
}
inline u64 value (char ch) {
  auto c = static_cast<unsigned char> (ch);
  if (c >= 'a') if (c <= 'z') return c - 'a';
  if (c >= 'A') if (c <= 'Z') return c - 'A';
  if (c >= '0') if (c <= '9') return 26u + (c - '0');
  return base;
}
// section 6.2; integers of 64 bits, code points of at most 32
enum class dec { ok, bad, overflow };
inline dec ref_decode (std::string_view s, std::u32string& out) {
  std::size_t b = 0;      // index of the last delimiter
  bool found = false;
  for (std::size_t j = 0; j < s.size (); ++j) if (s[j] == '-') { b = j; found = true; }
  for (std::size_t j = 0; j < b; ++j) {
    if (static_cast<unsigned char> (s[j]) >= 0x80) return dec::bad;
    out.push_back (static_cast<char32_t> (s[j]));
  }
  // The RFC's procedure skips a delimiter only when something precedes it. This library documents (and tests) that
  // a delimiter with nothing before it is skipped too.
  std::size_t in = found ? b + 1 : 0;
  u64 n = initial_n, i = 0, bias = initial_bias;
  while (in < s.size ()) {
    u64 oldi = i, w = 1;
    for (u64 k = base;; k += base) {
      if (in >= s.size ()) return dec::bad;
      u64 d = value (s[in++]);
      if (d >= base) return dec::bad;
      u64 dw, sum;
      if (__builtin_mul_overflow (d, w, &dw) || __builtin_add_overflow (i, dw, &sum)) return dec::overflow;
      i = sum;
      u64 t = threshold (k, bias);
      if (d < t) break;
      if (__builtin_mul_overflow (w, base - t, &w)) return dec::overflow;
    }
    u64 len = out.size () + 1;
    bias = adapt (i - oldi, len, oldi == 0);
    if (i / len > 0xFFFFFFFFu - n) return dec::overflow;
    n = n + i / len;
    i = i % len;
    out.insert (out.begin () + static_cast<std::ptrdiff_t> (i), static_cast<char32_t> (n));
    ++i;
  }
  return dec::ok;
}
}  // namespace ref_puny
