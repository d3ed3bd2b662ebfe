// Every public operation on arbitrary input (P24). What is asserted is asserted by the engine: no access outside a live
// object, no abort, exception, failed assertion or undefined operation, no endless loop.
#include <cassert>
#include <ranges>
#include <string>
#include <vector>
#include "uri/find_last.hpp"
#include "uri/icubaby.hpp"
#include "uri/parts.hpp"
#include "uri/rule.hpp"
#include "uri/starts_with.hpp"
#include "vp.hpp"

namespace {
using u8 = unsigned char;
std::size_t total (uri::parts const& p) {
  std::size_t n = 0;
  auto add = [&n] (std::string_view s) { n += s.size (); for (char c : s) n += static_cast<u8> (c); };
  if (p.scheme) add (*p.scheme);
  if (p.authority) { if (p.authority->userinfo) add (*p.authority->userinfo); add (p.authority->host); if (p.authority->port) add (*p.authority->port); }
  for (auto s : p.path.segments) add (s);
  if (p.query) add (*p.query);
  if (p.fragment) add (*p.fragment);
  return n;
}
// every operation on one structure
void all (uri::parts const& p) {
  vp_obs (uri::compose (p));
  vp_obs (p.valid ());
  vp_obs (p.path.valid ());
  if (p.authority) vp_obs (p.authority->valid ());
  vp_obs (std::string (p.path));
  uri::parts q = p;
  vp_assert (q == p && !(q != p), "a copy is not equal");
  q.path.remove_dot_segments ();
  vp_obs (std::string (q.path));
}
// param 0: which components are present; param 1: number of segments; param 2: absolute path; param 3: null views
uri::parts input () {
  uri::parts p;
  auto bits = static_cast<unsigned> (vp_param (0));
  auto nul = static_cast<unsigned> (vp_param (3));
  auto in = [&] (int k) { return nul >> k & 1U ? std::string_view{} : vp_in (k); };
  if (bits & 1) p.scheme = in (0);
  if (bits & 0xE) {
    auto& a = p.ensure_authority ();
    if (bits & 2) a.userinfo = in (1);
    a.host = in (2);
    if (bits & 8) a.port = in (3);
  }
  if (bits & 0x10) p.query = in (4);
  if (bits & 0x20) p.fragment = in (5);
  p.path.absolute = vp_param (2) != 0;
  int n = static_cast<int> (vp_param (1));
  for (int k = 0; k < n; ++k) p.path.segments.push_back (nul >> 6 & 1U ? std::string_view{} : vp_in (10 + k));
  return p;
}
template <class T> T* units (std::string_view s, std::size_t& n) {
  n = s.size () / sizeof (T);
  T* d = new T[n];
  for (std::size_t i = 0; i < n; ++i) {
    std::uint32_t v = 0;
    for (std::size_t k = 0; k < sizeof (T); ++k) v = v << 8 | static_cast<u8> (s[i * sizeof (T) + k]);
    d[i] = static_cast<T> (v);
  }
  return d;
}
template <class F, class T> void transcode (F const* d, std::size_t n) {
  std::vector<T> out;
  icubaby::transcoder<F, T> t;
  auto it = std::back_inserter (out);
  for (std::size_t i = 0; i < n; ++i) it = t (d[i], it);
  bool part = t.partial ();
  t.end_cp (it);
  vp_obs (part); vp_obs (t.well_formed ());
  vp_obs (std::string_view (reinterpret_cast<char const*> (out.data ()), out.size () * sizeof (T)));
  std::vector<T> v;
  auto const r = std::ranges::subrange (d, d + n) | icubaby::views::transcode<F, T>;
  for (auto i = r.begin (); i != r.end (); ++i) v.push_back (*i);
  vp_obs (std::string_view (reinterpret_cast<char const*> (v.data ()), v.size () * sizeof (T)));
}
template <class F> void from () {
  std::size_t n = 0;
  F* d = units<F> (vp_in (0), n);
  switch (vp_param (0)) {
  case 8: transcode<F, char8_t> (d, n); break;
  case 16: transcode<F, char16_t> (d, n); break;
  case 32: transcode<F, char32_t> (d, n); break;
  default:
    if constexpr (!std::is_same_v<F, std::byte>) {
      auto len = icubaby::length (d, d + n);
      vp_obs (static_cast<std::size_t> (len) <= n);
      for (std::size_t k = 0; k <= n + 1; ++k) { auto i = icubaby::index (d, d + n, k); vp_assert (i >= d && i <= d + n, "index: outside the range"); }
    }
  }
  delete[] d;
}
}  // namespace

// input 0: text
extern "C" void h_split () {
  auto const s = vp_in (0);
  vp_cover ("text");
  auto r = vp_param (0) ? uri::split_reference (s) : uri::split (s);
  vp_obs (r.has_value ());
  if (!r) return;
  vp_obs (total (*r) > 0);
  all (*r);
}
extern "C" void h_join_text () {
  vp_cover ("text");
  auto r = uri::join (vp_in (0), vp_in (1), vp_param (0) != 0);
  vp_obs (r.has_value ());
  if (r) all (*r);
}
// the structure need not be valid
extern "C" void h_structure () {
  vp_cover ("structure");
  uri::parts const p = input ();
  all (p);
  // joined with a reference, and as a reference
  uri::parts const o = *uri::split_reference ("//h/a/./../b?q");
  uri::parts const s = *uri::split ("s://h/a/b");
  for (bool strict : {true, false}) {
    vp_obs (uri::compose (uri::join (p, o, strict)));
    vp_obs (uri::compose (uri::join (s, p, strict)));
    vp_obs (uri::compose (uri::join (p, p, strict)));
  }
}
template <class S> static void stores () {
  uri::parts const p = input ();
  S a, b, c, d;
  auto const e = uri::encode (a, p);
  vp_obs (total (e) > 0);
  auto const r = uri::decode (b, e);
  if (auto* q = std::get_if<1> (&r)) vp_obs (total (*q) > 0);
  auto const t = uri::decode (c, p);
  if (auto* q = std::get_if<1> (&t)) {
    vp_obs (total (*q) > 0);
    auto const u = uri::encode (d, *q);
    vp_obs (total (u) > 0);
  }
  // a store may be used again
  auto const f = uri::encode (c, p);
  vp_obs (total (f) > 0);
}
extern "C" void h_stores () { vp_cover ("structure"); if (vp_param (4)) stores<std::string> (); else stores<std::vector<char>> (); }
extern "C" void h_percent () {
  auto const s = vp_in (0);
  vp_cover ("text");
  auto const es = static_cast<uri::pctencode_set> (vp_param (0));
  vp_obs (uri::needs_pctencode (s, es));
  vp_obs (uri::pctencode (s, es));
  vp_obs (static_cast<std::size_t> (uri::details::pct_encoded_size (s, es)) >= s.size ());
  vp_obs (uri::details::pct_decoded_size (s) <= s.size ());
  std::string f, b;
  auto const v = s | uri::views::pctdecode;
  vp_obs (v.empty ());
  for (auto i = v.begin (); i != v.end (); ++i) f.push_back (*i);
  for (auto [i, e] = std::pair{uri::pctdecode_begin (s), uri::pctdecode_end (s)}; i != e; i++) b.push_back (*i);
  vp_obs (f); vp_obs (b);
}
extern "C" void h_punycode () {
  auto const s = vp_in (0);
  vp_cover ("text");
  auto r = uri::punycode::decode (s);
  if (auto* ok = std::get_if<1> (&r)) vp_obs (std::string_view (reinterpret_cast<char const*> (ok->str.data ()), ok->str.size () * 4));
  else vp_obs (std::get<0> (r).message ());
}
// what a caller may hand over is any sequence of 32-bit units
extern "C" void h_punycode_encode () {
  std::size_t n = 0;
  char32_t* d = units<char32_t> (vp_in (0), n);
  vp_cover ("text");
  std::string out;
  auto [it, o, encoded] = uri::punycode::encode (std::ranges::subrange (d, d + n), vp_param (0) != 0, std::back_inserter (out));
  vp_obs (out); vp_obs (encoded);
  vp_assert (it == d + n, "the encoder stops before the end");
  delete[] d;
}
extern "C" void h_hosts () {
  auto const s = vp_in (0);
  vp_cover ("text");
  std::string out;
  auto r = uri::details::puny_decoded (s, std::back_inserter (out));
  vp_obs (r.index () == 1);
  auto z = uri::details::puny_decoded_size (s);
  vp_obs (z.index () == 1);
}
extern "C" void h_from_8 () { vp_cover ("text"); from<char8_t> (); }
extern "C" void h_from_16 () { vp_cover ("text"); from<char16_t> (); }
extern "C" void h_from_32 () { vp_cover ("text"); from<char32_t> (); }
extern "C" void h_from_x () { vp_cover ("text"); from<std::byte> (); }
extern "C" void h_search () {
  auto const s = vp_in (0), t = vp_in (1);
  vp_cover ("text");
  vp_obs (uri::starts_with (s, t));
  vp_obs (uri::find_last (s.begin (), s.end (), t.empty () ? 'x' : t[0]).empty ());
}
