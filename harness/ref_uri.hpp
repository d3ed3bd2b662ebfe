// Reference model of RFC 3986: written from the RFC (appendix B component regular expression, then each component's own
// character grammar), independently of the library.  Character tests use '|' and '&' so that each is one predicate of one byte.
#pragma once
#include "vp.hpp"
namespace ref {
using uc = unsigned char;
inline bool alpha (uc c) { return ((c >= 'A') & (c <= 'Z')) | ((c >= 'a') & (c <= 'z')); }
inline bool digit (uc c) { return (c >= '0') & (c <= '9'); }
inline bool hex (uc c) { return digit (c) | ((c >= 'A') & (c <= 'F')) | ((c >= 'a') & (c <= 'f')); }
inline bool unreserved (uc c) { return alpha (c) | digit (c) | (c == '-') | (c == '.') | (c == '_') | (c == '~'); }
inline bool subdelim (uc c) {
  return (c == '!') | (c == '$') | (c == '&') | (c == '\'') | (c == '(') | (c == ')') | (c == '*') | (c == '+') | (c == ',') | (c == ';') | (c == '=');
}
// extra characters a component allows next to unreserved / pct-encoded / sub-delims
enum extra : unsigned { X_NONE = 0, X_COLON = 1, X_AT = 2, X_SLASH = 4, X_QM = 8 };
inline bool allowed (uc c, unsigned x) {
  bool r = unreserved (c) | subdelim (c);
  if (x & X_COLON) r = r | (c == ':');
  if (x & X_AT) r = r | (c == '@');
  if (x & X_SLASH) r = r | (c == '/');
  if (x & X_QM) r = r | (c == '?');
  return r;
}
// *( unreserved / pct-encoded / sub-delims / extra )
inline bool chars (char const* p, std::size_t n, unsigned x) {
  std::size_t i = 0;
  while (i < n) {
    uc c = static_cast<uc> (p[i]);
    if (allowed (c, x)) { ++i; continue; }
    if (c != '%') return false;
    if (n - i < 3) return false;
    if (!hex (static_cast<uc> (p[i + 1]))) return false;
    if (!hex (static_cast<uc> (p[i + 2]))) return false;
    i += 3;
  }
  return true;
}
inline bool scheme (char const* p, std::size_t n) {
  if (n == 0) return false;
  if (!alpha (static_cast<uc> (p[0]))) return false;
  for (std::size_t i = 1; i < n; ++i) {
    uc c = static_cast<uc> (p[i]);
    if (!(alpha (c) | digit (c) | (c == '+') | (c == '-') | (c == '.'))) return false;
  }
  return true;
}
inline bool digits (char const* p, std::size_t n) {
  for (std::size_t i = 0; i < n; ++i) if (!digit (static_cast<uc> (p[i]))) return false;
  return true;
}
// dec-octet "." dec-octet "." dec-octet "." dec-octet, over the whole of [p, p+n)
inline bool ipv4 (char const* p, std::size_t n) {
  std::size_t i = 0;
  for (int k = 0; k < 4; ++k) {
    if (k > 0) { if (i >= n) return false; if (p[i] != '.') return false; ++i; }
    std::size_t b = i;
    while (i < n && i - b < 4) { if (!digit (static_cast<uc> (p[i]))) break; ++i; }
    std::size_t len = i - b;
    if (len == 0 || len > 3) return false;
    if (len > 1 && p[b] == '0') return false;
    if (len == 3) {
      if (p[b] > '2') return false;
      if (p[b] == '2') { if (p[b + 1] > '5') return false; if (p[b + 1] == '5' && p[b + 2] > '5') return false; }
    }
  }
  return i == n;
}
// RFC 3986 IPv6address: groups of 1-4 hex digits; one "::" standing for at least one group; the last 32 bits may be dotted quad
inline bool ipv6 (char const* p, std::size_t n) {
  unsigned groups = 0; bool elided = false; std::size_t i = 0;
  if (n >= 2) { if (p[0] == ':') { if (p[1] != ':') return false; elided = true; i = 2; if (i == n) return true; } }
  for (;;) {
    // a group, or the final dotted quad
    std::size_t b = i;
    while (i < n && i - b < 5) { if (!hex (static_cast<uc> (p[i]))) break; ++i; }
    std::size_t len = i - b;
    if (i < n) {
      if (p[i] == '.') {  // dotted quad in place of two groups
        if (!ipv4 (p + b, n - b)) return false;
        groups += 2; i = n;
        break;
      }
    }
    if (len == 0 || len > 4) return false;
    ++groups;
    if (i == n) break;
    if (p[i] != ':') return false;
    ++i;
    if (i == n) return false;          // a single trailing colon
    if (p[i] == ':') {
      if (elided) return false;
      elided = true; ++i;
      if (i == n) break;
    }
    if (groups > 8) return false;
  }
  return elided ? groups <= 7 : groups == 8;
}
// "v" 1*HEXDIG "." 1*( unreserved / sub-delims / ":" )
inline bool ipvfuture (char const* p, std::size_t n) {
  if (n < 4) return false;
  uc v = static_cast<uc> (p[0]);
  if (!((v == 'v') | (v == 'V'))) return false;
  std::size_t i = 1;
  while (i < n) { if (!hex (static_cast<uc> (p[i]))) break; ++i; }
  if (i == 1 || i >= n) return false;
  if (p[i] != '.') return false;
  ++i;
  if (i == n) return false;
  for (; i < n; ++i) { uc c = static_cast<uc> (p[i]); if (!(unreserved (c) | subdelim (c) | (c == ':'))) return false; }
  return true;
}
inline bool ip_literal (char const* p, std::size_t n) {  // with the brackets
  if (n < 2) return false;
  if (p[0] != '[') return false;
  if (p[n - 1] != ']') return false;
  if (n == 2) return false;
  uc c = static_cast<uc> (p[1]);
  if ((c == 'v') | (c == 'V')) return ipvfuture (p + 1, n - 2);
  return ipv6 (p + 1, n - 2);
}
inline bool host (char const* p, std::size_t n) {
  if (n > 0) if (p[0] == '[') return ip_literal (p, n);
  return chars (p, n, X_NONE);  // IPv4address is a subset of reg-name
}

constexpr std::size_t NP = static_cast<std::size_t> (-1);
struct span { std::size_t b = NP, e = NP; bool has () const { return b != NP; } };
struct uri {
  span scheme, userinfo, host, port, path, query, fragment;
  bool authority = false, absolute = false;
};
// Splits per appendix B and checks every component.  reference=false demands a scheme.
inline bool parse (char const* p, std::size_t n, bool reference, uri& u) {
  std::size_t i = 0;
  // scheme: the text before the first ':' provided it precedes any '/', '?', '#'
  std::size_t k = 0;
  bool colon = false;
  while (k < n) {
    uc c = static_cast<uc> (p[k]);
    if ((c == ':') | (c == '/') | (c == '?') | (c == '#')) { colon = c == ':'; break; }
    ++k;
  }
  if (colon) {
    if (!scheme (p, k)) return false;   // neither a scheme nor a first segment without colon
    u.scheme = {0, k};
    i = k + 1;
  } else if (!reference) return false;
  if (n - i >= 2) if (p[i] == '/') if (p[i + 1] == '/') {
    u.authority = true;
    i += 2;
    std::size_t e = i;
    while (e < n) { uc c = static_cast<uc> (p[e]); if ((c == '/') | (c == '?') | (c == '#')) break; ++e; }
    std::size_t h = i;
    for (std::size_t q = i; q < e; ++q) if (p[q] == '@') { u.userinfo = {i, q}; h = q + 1; break; }
    if (u.userinfo.has ()) if (!chars (p + i, u.userinfo.e - i, X_COLON)) return false;
    std::size_t he = h;
    bool bracket = false;
    if (h < e) bracket = p[h] == '[';
    if (bracket) {
      while (he < e) { if (p[he] == ']') break; ++he; }
      if (he == e) return false;
      ++he;
    } else {
      while (he < e) { if (p[he] == ':') break; ++he; }
    }
    u.host = {h, he};
    if (!ref::host (p + h, he - h)) return false;
    if (he < e) {
      if (p[he] != ':') return false;
      u.port = {he + 1, e};
      if (!digits (p + he + 1, e - he - 1)) return false;
    }
    i = e;
  }
  std::size_t pe = i;
  while (pe < n) { uc c = static_cast<uc> (p[pe]); if ((c == '?') | (c == '#')) break; ++pe; }
  u.path = {i, pe};
  if (!chars (p + i, pe - i, X_COLON | X_AT | X_SLASH)) return false;
  if (pe > i) u.absolute = p[i] == '/';
  i = pe;
  if (i < n) if (p[i] == '?') {
    std::size_t e = i + 1;
    while (e < n) { if (p[e] == '#') break; ++e; }
    u.query = {i + 1, e};
    if (!chars (p + i + 1, e - i - 1, X_COLON | X_AT | X_SLASH | X_QM)) return false;
    i = e;
  }
  if (i < n) {
    u.fragment = {i + 1, n};
    if (!chars (p + i + 1, n - i - 1, X_COLON | X_AT | X_SLASH | X_QM)) return false;
  }
  return true;
}
}  // namespace ref
