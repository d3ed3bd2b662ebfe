// Harnesses over the transcoders (P16, P17, P18, P19).
#include <ranges>
#include <string>
#include "uri/icubaby.hpp"
#include "ref_utf.hpp"
#include "vp.hpp"

namespace {
using namespace ref_utf;
template <class T> struct units {
  T* d = nullptr; std::size_t n = 0;
  units () = default;
  units (units const&) = delete;
  ~units () { delete[] d; }
};
// code units from input 0, each big endian
template <class T> void read (units<T>& u) {
  auto s = vp_in (0);
  u.n = s.size () / sizeof (T);
  u.d = new T[u.n];
  expect_units (u.n);
  for (std::size_t i = 0; i < u.n; ++i) {
    std::uint32_t v = 0;
    for (std::size_t k = 0; k < sizeof (T); ++k) v = v << 8 | static_cast<u8> (s[i * sizeof (T) + k]);
    u.d[i] = static_cast<T> (v);
  }
}

// P16. param 0: number of inputs; each is any number of code points of three bytes, big endian
template <class F, class T> void well_formed () {
  int n = static_cast<int> (vp_param (0));
  if (n > 0) expect_units (vp_in (0).size () / 3 + static_cast<std::size_t> (n));
  sink<F> from; sink<T> want, got;
  for (int k = 0; k < n; ++k) {
    auto const s = vp_in (k);
    for (std::size_t i = 0; i < s.size (); i += 3) {
      char32_t c = 0;
      for (std::size_t j = i; j < i + 3; ++j) c = c << 8 | static_cast<u8> (s[j]);
      vp_assume (scalar (c));
      enc (c, from); enc (c, want);
    }
  }
  icubaby::transcoder<F, T> t;
  T* p = got.d;
  vp_assert (t.well_formed (), "no input yet, and reported as ill formed");
  for (std::size_t i = 0; i < from.n; ++i) p = t (from.d[i], p);
  vp_assert (!t.partial (), "complete text is reported as partial");
  p = t.end_cp (p);
  got.end (p);
  obs (got);
  vp_assert (same (got, want), "the output is not the target encoding form of the text");
  vp_assert (t.well_formed (), "well-formed text is reported as ill formed");
  vp_cover ("well formed");
}

// P17. input 0: code units; param 0: well-formedness the transcoder starts with, where it can be given
template <class F, class T> void any_units () {
  units<F> s; read (s);
  auto make = [] {
    if constexpr (std::is_constructible_v<icubaby::transcoder<F, T>, bool>) return icubaby::transcoder<F, T> (vp_param (0) != 0);
    else return icubaby::transcoder<F, T> ();
  };
  bool start = true;
  if constexpr (std::is_constructible_v<icubaby::transcoder<F, T>, bool>) start = vp_param (0) != 0;
  auto t = make ();
  sink<T> got;
  T* p = got.d;
  for (std::size_t i = 0; i < s.n; ++i) p = t (s.d[i], p);
  bool part = t.partial ();
  p = t.end_cp (p);
  got.end (p);
  obs (got);
  vp_obs (t.well_formed ());
  // the longest well-formed prefix, and whether all that follows it is the beginning of a sequence
  sink<T> want; bool ok = true, tail = false, any_bad = false;
  std::size_t i = 0, exact = 0;
  while (i < s.n) {
    char32_t c = 0; bool pt = false;
    std::size_t len = dec (s.d, i, s.n, c, pt);
    if (len == 0) {
      if (ok) { exact = want.n; tail = pt; }
      ok = false;
      if constexpr (sizeof (F) == 1) break;
      else { any_bad = true; enc (FFFD, want); ++i; }
    } else { enc (c, want); i += len; }
  }
  vp_cover (ok ? "well formed" : "ill formed");
  vp_assert (t.well_formed () == (ok & start), "verdict on well-formedness");
  if (ok) { vp_assert (same (got, want), "well-formed text: the output is not its encoding in the target form"); vp_assert (!part, "complete text is reported as partial"); return; }
  if (sizeof (F) != 1) {
    // each unit that is in no well-formed sequence is replaced by one U+FFFD
    vp_assert (same (got, want), "ill-formed units are not each replaced by U+FFFD, or other units are changed");
    vp_assert (part == ((sizeof (F) == 2) & surrogate (s.d[s.n - 1]) & (s.d[s.n - 1] < 0xDC00)), "partial ()");
    (void)any_bad;
    return;
  }
  // UTF-8: how many bytes one U+FFFD stands for is left open
  vp_assert (got.n >= exact, "the well-formed beginning is cut short");
  bool eq = true;
  for (std::size_t k = 0; k < exact; ++k) eq = eq & (got.d[k] == want.d[k]);
  vp_assert (eq, "the well-formed beginning is changed");
  if (tail) vp_assert (part, "text that stops inside a code point is not reported as partial");
  bool repl = false; std::size_t reps = 0;
  for (std::size_t k = exact; k < got.n;) {
    char32_t c = 0; bool pt = false;
    std::size_t len = dec (got.d, k, got.n, c, pt);
    if (len == 0) { vp_fail ("the output is ill formed"); return; }
    if (c == FFFD) { repl = true; ++reps; }
    k += len;
  }
  vp_assert (repl, "nothing replaces the ill-formed part");
  // whenever no code point is under way, what follows is transcoded as if it came first
  {
    auto u = make (); sink<T> all; T* q = all.d;
    for (std::size_t k = 0; k + 1 < s.n; ++k) {
      q = u (s.d[k], q);
      if (u.partial ()) continue;
      icubaby::transcoder<F, T> fresh; sink<T> rest; T* r = rest.d;
      for (std::size_t j = k + 1; j < s.n; ++j) r = fresh (s.d[j], r);
      r = fresh.end_cp (r);
      rest.end (r);
      std::size_t const before = static_cast<std::size_t> (q - all.d);
      vp_assert (before + rest.n == got.n, "what precedes a code point boundary changes how much what follows it gives");
      if (before + rest.n != got.n) return;
      bool e = true;
      for (std::size_t j = 0; j < rest.n; ++j) e = e & (got.d[before + j] == rest.d[j]);
      vp_assert (e, "what precedes a code point boundary changes what follows it");
      vp_assert (t.well_formed () == (u.well_formed () & fresh.well_formed ()), "the verdict is not that of both sides of a code point boundary");
    }
  }
  // whatever precedes it, what follows an ASCII character is decoded afresh
  for (std::size_t k = 0; k < s.n; ++k) {
    if (s.d[k] >= 0x80) continue;
    sink<T> suf; std::size_t j = k + 1; bool wf = true;
    while (j < s.n) {
      char32_t c = 0; bool pt = false;
      std::size_t len = dec (s.d, j, s.n, c, pt);
      if (len == 0) { wf = false; break; }
      enc (c, suf); j += len;
    }
    if (!wf) continue;
    if (suf.n > got.n) { vp_fail ("text after an ASCII character is lost"); return; }
    bool e = true;
    for (std::size_t q = 0; q < suf.n; ++q) e = e & (got.d[got.n - suf.n + q] == suf.d[q]);
    vp_assert (e, "text after an ASCII character is changed");
    vp_cover ("resumed");
    break;
  }
}

// P18. input 0: bytes
template <class T> void bytes () {
  auto const s = vp_in (0);
  std::size_t const n = s.size ();
  expect_units (n);
  auto at = [&] (std::size_t i) { return static_cast<u8> (s[i]); };
  using E = icubaby::encoding;
  // the byte order marks; FF FE 00 00 is that of UTF-32
  E e = E::utf8; std::size_t i = 0, w = 1; bool le = false;
  if (n >= 4 && at (0) == 0x00 && at (1) == 0x00 && at (2) == 0xFE && at (3) == 0xFF) { e = E::utf32be; i = 4; w = 4; }
  else if (n >= 4 && at (0) == 0xFF && at (1) == 0xFE && at (2) == 0x00 && at (3) == 0x00) { e = E::utf32le; i = 4; w = 4; le = true; }
  else if (n >= 3 && at (0) == 0xEF && at (1) == 0xBB && at (2) == 0xBF) i = 3;
  else if (n >= 2 && at (0) == 0xFE && at (1) == 0xFF) { e = E::utf16be; i = 2; w = 2; }
  else if (n >= 2 && at (0) == 0xFF && at (1) == 0xFE) { e = E::utf16le; i = 2; w = 2; le = true; }
  // what transcoding the code units after the mark gives
  sink<T> want; T* p = want.d; bool wf = true;
  bool cut = (n - i) % w != 0;
  auto unit = [&] (std::size_t k) {
    std::uint32_t v = 0;
    for (std::size_t j = 0; j < w; ++j) v |= static_cast<std::uint32_t> (at (k + j)) << 8 * (le ? j : w - 1 - j);
    return v;
  };
  if (w == 1) { icubaby::transcoder<char8_t, T> t; for (; i < n; ++i) p = t (static_cast<char8_t> (at (i)), p); p = t.end_cp (p); wf = t.well_formed (); }
  else if (w == 2) { icubaby::transcoder<char16_t, T> t; for (; i + 2 <= n; i += 2) p = t (static_cast<char16_t> (unit (i)), p); p = t.end_cp (p); wf = t.well_formed (); }
  else { icubaby::transcoder<char32_t, T> t; for (; i + 4 <= n; i += 4) p = t (static_cast<char32_t> (unit (i)), p); p = t.end_cp (p); wf = t.well_formed (); }
  want.end (p);
  if (cut) { enc (FFFD, want); wf = false; }
  icubaby::transcoder<std::byte, T> t;
  vp_assert (t.selected_encoding () == E::unknown, "an encoding is selected before there is input");
  sink<T> got; p = got.d;
  for (std::size_t k = 0; k < n; ++k) p = t (static_cast<std::byte> (at (k)), p);
  bool part = t.partial ();
  p = t.end_cp (p);
  got.end (p);
  obs (got);
  vp_obs (t.well_formed ());
  vp_cover (e == E::utf8 ? "UTF-8" : e == E::utf16be ? "UTF-16BE" : e == E::utf16le ? "UTF-16LE" : e == E::utf32be ? "UTF-32BE" : "UTF-32LE");
  if (cut) { vp_cover ("truncated"); vp_assert (part, "a stream that stops inside a code unit is not reported as partial"); }
  vp_assert (t.well_formed () == wf, "verdict on well-formedness");
  vp_assert (same (got, want), "the output is not that of the code units the bytes spell");
  if (n > 0) vp_assert (t.selected_encoding () == e, "selected encoding");
}

// P19
template <class F, class T> void adapters () {
  units<F> s; read (s);
  sink<T> want;
  icubaby::transcoder<F, T> t;
  T* p = want.d;
  for (std::size_t i = 0; i < s.n; ++i) p = t (s.d[i], p);
  p = t.end_cp (p);
  want.end (p);
  obs (want);
  // the output iterator
  {
    icubaby::transcoder<F, T> t2; sink<T> got;
    auto it = icubaby::iterator<icubaby::transcoder<F, T>, T*> (&t2, got.d);
    for (std::size_t i = 0; i < s.n; ++i) { *it = s.d[i]; if (i % 2) ++it; else it++; }
    vp_assert (it.transcoder () == &t2, "the iterator's transcoder");
    it = t2.end_cp (it);
    got.end (it.base ());
    vp_assert (same (got, want), "icubaby::iterator gives other output than its transcoder");
    vp_assert (t2.well_formed () == t.well_formed (), "icubaby::iterator: verdict on well-formedness");
  }
  // the view
  {
    auto v = std::ranges::subrange (static_cast<F const*> (s.d), static_cast<F const*> (s.d + s.n)) | icubaby::views::transcode<F, T>;
    sink<T> got;
    auto it = v.begin (); auto end = v.end ();
    for (std::size_t k = 0; it != end; ++k) {
      if (got.n >= got.cap) { vp_fail ("the view gives more output than there can be"); return; }
      got.add (*it);
      if (k % 2) ++it; else it++;
    }
    vp_assert (same (got, want), "the view's elements are not the transcoder's output");
    vp_assert (v.well_formed () == t.well_formed (), "the view's verdict on well-formedness");
    vp_cover (want.n == 0 ? "nothing" : "output");
    // a second pass gives the same
    sink<T> again;
    for (T x : v) { if (again.n >= again.cap) { vp_fail ("second pass"); return; } again.add (x); }
    vp_assert (same (again, want), "the second pass over the view differs");
    vp_assert (v.well_formed () == t.well_formed (), "the view's verdict after a second pass");
    // what std::ranges::view_interface builds on the two ends
    vp_assert (v.empty () == (want.n == 0), "the view's empty ()");
    if (want.n > 0) vp_assert (v.front () == want.d[0], "the view's front ()");
    vp_assert (std::ranges::distance (v) == static_cast<std::ptrdiff_t> (want.n), "the view's length");
    // an iterator that is left behind keeps its place
    if (want.n > 1) {
      auto first = v.begin (); auto second = std::next (first);
      vp_assert (*first == want.d[0] && *second == want.d[1], "a copy of the view's iterator");
      auto was = first++;
      vp_assert (*was == want.d[0] && *first == want.d[1], "post-increment of the view's iterator");
    }
  }
}
// the same view over a range whose end is a sentinel: stops at a zero unit
template <class F, class T> void sentinel () {
  units<F> s; read (s);
  std::size_t n = 0;
  while (n < s.n && s.d[n] != F{}) ++n;
  vp_assume (n < s.n);
  sink<T> want;
  icubaby::transcoder<F, T> t;
  T* p = want.d;
  for (std::size_t i = 0; i < n; ++i) p = t (s.d[i], p);
  p = t.end_cp (p);
  want.end (p);
  obs (want);
  auto v = std::ranges::subrange (static_cast<F const*> (s.d), static_cast<F const*> (s.d + s.n)) | std::views::take_while ([] (F x) { return x != F{}; }) | icubaby::views::transcode<F, T>;
  sink<T> got;
  auto it = v.begin (); auto end = v.end ();
  for (; it != end; ++it) {
    if (got.n >= got.cap) { vp_fail ("the view gives more output than there can be"); return; }
    got.add (*it);
  }
  vp_assert (same (got, want), "the view's elements are not the transcoder's output (sentinel)");
  vp_assert (v.well_formed () == t.well_formed (), "the view's verdict on well-formedness (sentinel)");
  vp_cover ("sentinel");
}
}  // namespace

#define PAIR(a, A, b, B) \
  extern "C" void h_wf_##a##_##b () { well_formed<A, B> (); } \
  extern "C" void h_any_##a##_##b () { any_units<A, B> (); } \
  extern "C" void h_ada_##a##_##b () { adapters<A, B> (); }
#define ROW(a, A) PAIR (a, A, 8, char8_t) PAIR (a, A, 16, char16_t) PAIR (a, A, 32, char32_t)
ROW (8, char8_t)
ROW (16, char16_t)
ROW (32, char32_t)
#define BYTE(b, B) \
  extern "C" void h_bytes_##b () { bytes<B> (); } \
  extern "C" void h_ada_x_##b () { adapters<std::byte, B> (); } \
  extern "C" void h_sen_x_##b () { sentinel<std::byte, B> (); }
BYTE (8, char8_t)
BYTE (16, char16_t)
BYTE (32, char32_t)
extern "C" void h_sen_32_8 () { sentinel<char32_t, char8_t> (); }
extern "C" void h_sen_8_32 () { sentinel<char8_t, char32_t> (); }
extern "C" void h_sen_16_8 () { sentinel<char16_t, char8_t> (); }
