// Reference model of percent-encoding: the WHATWG encode sets, and encoding and decoding byte by byte.
#pragma once
#include "vp.hpp"
#include <string>
namespace ref_pct {
// The encode sets, from the WHATWG URL standard as this library documents them ('%' belongs to every set, '`' only to those of the path onwards).
constexpr char const* lists[7] = {
  /* fragment      */ "\"%<>",
  /* query         */ "\"#%<>",
  /* special_query */ "\"#%<>'",
  /* path          */ "\"#%<>?`{}",
  /* userinfo      */ "\"#%<>?`{}/:;=@[\\]^|",
  /* component     */ "\"#%<>?`{}/:;=@[\\]^|$&+,",
  /* form          */ "\"#%<>?`{}/:;=@[\\]^|$&+,!'()~",
};
inline bool member (unsigned char c, int n) {
  bool r = (c <= 0x20) | (c > 0x7E);
  if (n < 7) for (char const* p = lists[n]; *p; ++p) r = r | (c == static_cast<unsigned char> (*p));
  return r;
}
inline char hex (unsigned v) { return "0123456789ABCDEF"[v]; }
// value of a hexadecimal digit, 16 if it is none
inline unsigned unhex (unsigned char c) {
  if (c >= '0') if (c <= '9') return c - '0';
  if (c >= 'a') if (c <= 'f') return c - 'a' + 10;
  if (c >= 'A') if (c <= 'F') return c - 'A' + 10;
  return 16;
}
inline std::string ref_encode (std::string_view s, int n) {
  std::string r;
  for (char ch : s) {
    auto c = static_cast<unsigned char> (ch);
    if (member (c, n)) { r.push_back ('%'); r.push_back (hex (c >> 4)); r.push_back (hex (c & 15)); }
    else r.push_back (ch);
  }
  return r;
}
inline std::string ref_decode (std::string_view s) {
  std::string r;
  std::size_t i = 0;
  while (i < s.size ()) {
    if (s[i] == '%') if (i + 2 < s.size ()) {
      unsigned a = unhex (static_cast<unsigned char> (s[i + 1]));
      if (a < 16) {
        unsigned b = unhex (static_cast<unsigned char> (s[i + 2]));
        if (b < 16) { r.push_back (static_cast<char> (a * 16 + b)); i += 3; continue; }
      }
    }
    r.push_back (s[i]);
    ++i;
  }
  return r;
}
}  // namespace ref_pct
