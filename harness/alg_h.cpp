// Harnesses over code point counting and indexing, find_last and starts_with (P20).
#include <cassert>
#include <forward_list>
#include <list>
#include <ranges>
#include <string>
#include <vector>
#include "uri/find_last.hpp"
#include "uri/icubaby.hpp"
#include "uri/starts_with.hpp"
#include "ref_utf.hpp"
#include "vp.hpp"

namespace {
using namespace ref_utf;
// param 0: number of inputs; each is any number of code points of three bytes, big endian
template <class T> void points () {
  int const inputs = static_cast<int> (vp_param (0));
  if (inputs > 0) expect_units (vp_in (0).size () / 3 + static_cast<std::size_t> (inputs));
  sink<T> s;
  int n = 0;
  std::vector<std::size_t> starts;
  for (int k = 0; k < inputs; ++k) {
    auto const in = vp_in (k);
    for (std::size_t i = 0; i < in.size (); i += 3) {
      char32_t c = 0;
      for (std::size_t j = i; j < i + 3; ++j) c = c << 8 | static_cast<u8> (in[j]);
      vp_assume (scalar (c));
      starts.push_back (s.n); ++n;
      enc (c, s);
    }
  }
  std::size_t const* const start = starts.data ();
  vp_cover ("text");
  auto* exact = new T[s.n];
  // the same units, disguised: only the projection gives them back
  auto* box = new T[s.n];
  for (std::size_t i = 0; i < s.n; ++i) { exact[i] = s.d[i]; box[i] = static_cast<T> (s.d[i] ^ 0xC0); }
  auto const unbox = [] (T x) { return static_cast<T> (x ^ 0xC0); };
  T const* const b = exact; T const* const e = exact + s.n;
  obs (s);
  auto const range = std::ranges::subrange{b, e};
  vp_assert (icubaby::length (range) == n, "length of a range");
  vp_assert (icubaby::length (b, e) == n, "length of an iterator pair");
  vp_assert (icubaby::length (box, box + s.n, unbox) == n, "length with a projection");
  vp_assert (icubaby::length (std::ranges::subrange{box, box + s.n}, unbox) == n, "length of a range with a projection");
  // the projection counts even where its operand is a unit itself: of units that all project to 'a' each is a code point
  vp_assert (icubaby::length (b, e, [] (T) { return static_cast<T> ('a'); }) == static_cast<std::ptrdiff_t> (s.n), "length with a constant projection");
  for (int k = 0; k <= n + 1; ++k) {
    T const* want = k < n ? b + start[k] : e;
    auto pos = static_cast<std::size_t> (k);
    vp_assert (icubaby::index (range, pos) == want, "index of a range");
    vp_assert (icubaby::index (b, e, pos) == want, "index of an iterator pair");
    vp_assert (icubaby::index (box, box + s.n, pos, unbox) == box + (want - b), "index with a projection");
    vp_assert (icubaby::index (std::ranges::subrange{box, box + s.n}, pos, unbox) == box + (want - b), "index of a range with a projection");
    vp_assert (icubaby::index (b, e, pos, [] (T) { return static_cast<T> ('a'); }) == (pos < s.n ? b + pos : e), "index with a constant projection");
  }
  vp_assert (icubaby::index (range, static_cast<std::size_t> (-1)) == e, "index far past the end");
  for (std::size_t i = 0, k = 0; i < s.n; ++i) {
    bool first = k < static_cast<std::size_t> (n) && start[k] == i;
    if (first) ++k;
    vp_assert (icubaby::is_code_point_start (exact[i]) == first, "is_code_point_start");
  }
  delete[] exact;
  delete[] box;
}
char flip (char c) { return static_cast<char> (c ^ 0x20); }
}  // namespace

extern "C" void h_points_8 () { points<char8_t> (); }
extern "C" void h_points_16 () { points<char16_t> (); }
extern "C" void h_points_32 () { points<char32_t> (); }

// input 0: sequence; input 1: one byte
extern "C" void h_find_last () {
  auto const s = vp_in (0);
  char const v = vp_in (1)[0];
  std::size_t const n = s.size ();
  auto last_of = [&] (char x) { std::size_t r = n; for (std::size_t i = 0; i < n; ++i) if (s[i] == x) r = i; return r; };
  std::size_t const at = last_of (v);
  vp_obs (at < n);
  vp_cover (at < n ? "found" : "absent");
  char const* const b = s.data (); char const* const e = b + n;
  auto good = [&] (auto const& r, char const* what) { vp_assert (r.begin () == b + at, what); vp_assert (r.end () == e, what); };
  good (uri::find_last (b, e, v), "find_last over pointers");
  good (uri::find_last (std::ranges::subrange{b, e}, v), "find_last over a range");
  good (uri::details::find_last_bidi (b, e, v), "find_last_bidi");
  good (uri::details::find_last_forward (b, e, v), "find_last_forward");
  // a sentinel that is no iterator
  {
    auto r = uri::find_last (std::counted_iterator{b, static_cast<std::ptrdiff_t> (n)}, std::default_sentinel, v);
    vp_assert (r.begin ().base () == b + at && r.end ().base () == e, "find_last with a sentinel");
    vp_assert (static_cast<std::size_t> (r.begin ().count ()) == n - at && r.end ().count () == 0, "find_last with a sentinel: distance to the end");
  }
  // a projection
  {
    std::size_t const pat = last_of (flip (v));
    auto r = uri::find_last (b, e, v, flip);
    vp_assert (r.begin () == b + pat && r.end () == e, "find_last with a projection");
    auto q = uri::find_last (std::ranges::subrange{std::counted_iterator{b, static_cast<std::ptrdiff_t> (n)}, std::default_sentinel}, v, flip);
    vp_assert (q.begin ().base () == b + pat && q.end ().base () == e, "find_last with a sentinel and a projection");
  }
  // nodes
  {
    std::forward_list<char> f; std::list<char> l;
    for (std::size_t i = n; i-- > 0;) { f.push_front (s[i]); l.push_front (s[i]); }
    auto rf = uri::find_last (f, v);
    vp_assert (rf.begin () == std::next (f.begin (), static_cast<std::ptrdiff_t> (at)) && rf.end () == f.end (), "find_last over a forward list");
    auto rl = uri::find_last (l, v);
    vp_assert (rl.begin () == std::next (l.begin (), static_cast<std::ptrdiff_t> (at)) && rl.end () == l.end (), "find_last over a list");
  }
}
// input 0: sequence; input 1: prefix
extern "C" void h_starts_with () {
  auto const s = vp_in (0), p = vp_in (1);
  bool want = p.size () <= s.size ();
  if (want) for (std::size_t i = 0; i < p.size (); ++i) if (s[i] != p[i]) { want = false; break; }
  vp_obs (want);
  vp_cover (want ? "prefix" : "no prefix");
  vp_assert (uri::starts_with (s, p) == want, "starts_with over ranges");
  vp_assert (uri::starts_with (s.begin (), s.end (), p.begin (), p.end ()) == want, "starts_with over iterators");
  std::forward_list<char> f;
  for (std::size_t i = s.size (); i-- > 0;) f.push_front (s[i]);
  vp_assert (uri::starts_with (f, p) == want, "starts_with over a forward list");
  vp_assert (uri::starts_with (s, p, std::ranges::equal_to{}, flip, flip) == want, "starts_with with projections");
  vp_assert (uri::starts_with (s.begin (), s.end (), p.begin (), p.end (), std::ranges::equal_to{}, flip, flip) == want, "starts_with over iterators with projections");
  // a predicate that tells its operands apart, and different projections
  auto prefix_by = [&] (auto pred, auto proj1, auto proj2, char const* what) {
    bool w = p.size () <= s.size ();
    if (w) for (std::size_t i = 0; i < p.size (); ++i) if (!pred (proj1 (s[i]), proj2 (p[i]))) { w = false; break; }
    vp_assert (uri::starts_with (s, p, pred, proj1, proj2) == w, what);
    vp_assert (uri::starts_with (s.begin (), s.end (), p.begin (), p.end (), pred, proj1, proj2) == w, what);
  };
  auto const same = [] (char c) { return c; };
  prefix_by ([] (char a, char b) { return a < b; }, same, same, "starts_with with a predicate");
  prefix_by (std::ranges::equal_to{}, flip, same, "starts_with with a projection of the sequence");
  prefix_by (std::ranges::equal_to{}, same, flip, "starts_with with a projection of the prefix");
  // what precedes a dot
  std::size_t d = 0;
  while (d < s.size ()) { if (s[d] == '.') break; ++d; }
  bool w2 = p.size () <= d;
  if (w2) for (std::size_t i = 0; i < p.size (); ++i) if (s[i] != p[i]) { w2 = false; break; }
  auto const head = s | std::views::take_while ([] (char c) { return c != '.'; });
  vp_assert (uri::starts_with (head, p) == w2, "starts_with over a range with a sentinel");
}
