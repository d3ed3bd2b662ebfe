// Harnesses over percent-encoding and percent-decoding (P09, P10, P11).
#include "uri/parts.hpp"
#include "uri/pctdecode.hpp"
#include "uri/pctencode.hpp"
#include "ref_pct.hpp"
#include "vp.hpp"

namespace {
using uri::pctencode_set;
using namespace ref_pct;
// set number n: 0..6 as above, 7: the empty set
pctencode_set set_of (int n) { return n == 7 ? pctencode_set::none : static_cast<pctencode_set> (1U << n); }
}  // namespace

// P09.  Input 0: text; param 0: encode set
extern "C" void h_round_trip () {
  auto s = vp_in (0);
  int n = static_cast<int> (vp_param (0));
  if (n == 7) for (char c : s) vp_assume (c != '%');
  std::string e = uri::pctencode (s, set_of (n));
  vp_obs (e);
  std::string d = uri::pctdecode (e);
  vp_assert (d == s, "decoding the encoded text does not give the text");
  if (uri::needs_pctencode (s, set_of (n))) vp_cover ("something encoded");
  else { vp_cover ("nothing encoded"); vp_assert (e == s, "text in which no byte needs encoding is changed"); }
  std::string v;
  for (auto c : e | uri::views::pctdecode) v += c;
  vp_assert (v == s, "decoding the encoded text through the view does not give the text");
}
// P10.  Input 0: text; param 0: encode set
extern "C" void h_encode () {
  auto s = vp_in (0);
  int n = static_cast<int> (vp_param (0));
  auto const es = set_of (n);
  std::string want = ref_encode (s, n);
  std::string got = uri::pctencode (s, es);
  vp_obs (got);
  vp_assert (got == want, "the encoded text is not the canonical encoding of the bytes in the set");
  bool any = false;
  for (char c : s) any = any | member (static_cast<unsigned char> (c), n);
  vp_assert (uri::needs_pctencode (s, es) == any, "needs_pctencode(string)");
  vp_assert (uri::needs_pctencode (s.begin (), s.end (), es) == any, "needs_pctencode(iterators)");
  vp_cover (any ? "needs encoding" : "needs none");
  vp_assert (uri::details::pct_encoded_size (s, es) == (any ? want.size () : 0), "size of the encoded text");
  // through iterators over unsigned bytes
  std::basic_string<char8_t> u;
  for (char c : s) u.push_back (static_cast<char8_t> (c));
  std::string got8;
  uri::pctencode (u.begin (), u.end (), std::back_inserter (got8), es);
  vp_assert (got8 == want, "encoding char8_t text differs from encoding char text");
}
extern "C" void h_member () {
  auto s = vp_in (0);
  int n = static_cast<int> (vp_param (0));
  auto c = static_cast<unsigned char> (s[0]);
  bool got = uri::needs_pctencode (c, set_of (n));
  vp_obs (got);
  vp_cover (got ? "in the set" : "not in the set");
  vp_assert (got == member (c, n), "membership of a byte in the encode set");
}
// P11.  Input 0: text
extern "C" void h_decode () {
  auto s = vp_in (0);
  std::string want = ref_decode (s);
  std::string got = uri::pctdecode (s);
  vp_obs (got);
  vp_assert (got == want, "pctdecode");
  vp_cover (want.size () != s.size () ? "escapes" : "no escape");
  bool pct = false;
  for (char c : s) pct = pct | (c == '%');
  vp_assert (uri::needs_pctdecode (s.begin (), s.end ()) == pct, "needs_pctdecode");
  vp_assert (uri::details::pct_decoded_size (s) == (pct ? want.size () : 0), "size of the decoded text");
}
extern "C" void h_decode_iter () {
  auto s = vp_in (0);
  std::string want = ref_decode (s);
  // iterator, both increments, reading twice
  std::string a;
  auto it = uri::pctdecode_begin (s);
  auto const end = uri::pctdecode_end (s);
  while (!(it == end)) {
    char c = *it;
    vp_assert (*it.operator-> () == c, "operator-> of the iterator");
    a.push_back (c);
    auto old = it;
    auto was = it++;
    vp_assert (was == old && *was == c, "post-increment of the iterator");
    ++old;
    vp_assert (old == it, "the two increments of the iterator differ");
  }
  vp_obs (a);
  vp_cover (a.size () != s.size () ? "escapes" : "no escape");
  vp_assert (a == want, "pctdecode_iterator");
  // decoder object
  std::string b;
  uri::pctdecoder dec{s};
  for (auto const& c : dec) b.push_back (c);
  vp_assert (b == want, "pctdecoder");
  uri::pctdecoder<std::string_view::const_iterator> dec2 (s.begin (), s.end ());
  b.clear ();
  for (auto p = dec2.begin (); p != dec2.end (); ++p) b.push_back (*p);
  vp_assert (b == want, "pctdecoder over iterators");
}
extern "C" void h_decode_view () {
  auto s = vp_in (0);
  std::string want = ref_decode (s);
  auto v = s | uri::views::pctdecode;
  std::string a, b, m;
  for (auto it = v.begin (); it != v.end ();) {
    m.push_back (std::ranges::iter_move (it));
    a.push_back (*it);
    auto was = it++;
    b.push_back (*was);
  }
  vp_obs (a);
  vp_cover (a.size () != s.size () ? "escapes" : "no escape");
  vp_assert (a == want, "views::pctdecode");
  vp_assert (b == want, "post-increment of the view's iterator");
  vp_assert (m == want, "iter_move of the view's iterator");
  // over an lvalue container
  std::string str (s);
  std::string c;
  for (auto ch : str | uri::views::pctdecode) c.push_back (ch);
  vp_assert (c == want, "views::pctdecode over a string");
  vp_assert (str == s, "decoding changes the source");
  vp_assert (static_cast<std::size_t> (std::ranges::distance (v)) == want.size (), "length of the view");
  vp_assert (v.empty () == want.empty (), "empty () of the view");
  if (!want.empty ()) vp_assert (v.front () == want[0], "front () of the view");
  vp_assert (v.base () == s, "base () of the view");
  if (want.size () > 1) {
    auto first = v.begin (); auto second = std::next (first);
    vp_assert (*first == want[0], "a copy of the view's iterator (first)");
    vp_assert (*second == want[1], "a copy of the view's iterator (second)");
    vp_assert (*first == want[0], "the view's iterator changes with its copy");
    vp_assert (first != second, "different positions of the view compare equal");
  }
}
