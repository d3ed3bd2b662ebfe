// Harnesses over uri::split, split_reference, compose, valid, operator==.
#include <sstream>
#include "ref_uri.hpp"
#include "uri/uri.hpp"

namespace {
bool same (std::string_view in, std::string_view got, ref::span want) {
  // the very bytes of the caller's string, not a copy (an empty piece has no bytes to refer to)
  return got.size () == want.e - want.b && (got.empty () || got.data () == in.data () + want.b);
}
bool same (std::string_view in, std::optional<std::string_view> const& got, ref::span want) {
  if (!got.has_value ()) return !want.has ();
  return want.has () && same (in, *got, want);
}
void observe (uri::parts const& p) {
  auto opt = [] (std::optional<std::string_view> const& o) { vp_obs (o.has_value ()); if (o) vp_obs (*o); };
  opt (p.scheme);
  vp_obs (p.authority.has_value ());
  if (p.authority) { opt (p.authority->userinfo); vp_obs (p.authority->host); opt (p.authority->port); }
  vp_obs (p.path.absolute);
  for (auto const& s : p.path.segments) vp_obs (s);
  opt (p.query);
  opt (p.fragment);
}
bool text_eq (std::optional<std::string_view> const& a, std::optional<std::string_view> const& b) {
  if (a.has_value () != b.has_value ()) return false;
  return !a.has_value () || *a == *b;
}
bool equal_parts (uri::parts const& a, uri::parts const& b) {
  if (!text_eq (a.scheme, b.scheme)) return false;
  if (a.authority.has_value () != b.authority.has_value ()) return false;
  if (a.authority) {
    if (!text_eq (a.authority->userinfo, b.authority->userinfo)) return false;
    if (a.authority->host != b.authority->host) return false;
    if (!text_eq (a.authority->port, b.authority->port)) return false;
  }
  if (a.path.absolute != b.path.absolute) return false;
  if (a.path.segments.size () != b.path.segments.size ()) return false;
  for (std::size_t i = 0; i < a.path.segments.size (); ++i) if (a.path.segments[i] != b.path.segments[i]) return false;
  return text_eq (a.query, b.query) && text_eq (a.fragment, b.fragment);
}
void cover_shape (uri::parts const& p) {
  if (p.authority) {
    vp_cover ("authority");
    if (p.authority->userinfo) vp_cover ("userinfo");
    if (p.authority->port) { if (p.authority->port->empty ()) vp_cover ("empty port"); else vp_cover ("port"); }
    if (p.authority->host.empty ()) vp_cover ("empty host");
  }
  if (p.path.absolute) vp_cover ("absolute path");
  if (!p.path.absolute && !p.path.empty ()) vp_cover ("relative path");
  if (p.path.segments.size () > 1) vp_cover ("several segments");
  if (p.query) vp_cover ("query");
  if (p.fragment) vp_cover ("fragment");
}
}  // namespace

// P01: acceptance as a URI
extern "C" void h_accept_uri () {
  auto s = vp_in (0);
  auto r = uri::split (s);
  ref::uri u;
  bool want = ref::parse (s.data (), s.size (), false, u);
  vp_obs (r.has_value ());
  if (r) { vp_cover ("accepted"); vp_assert (want, "a string outside the URI grammar is accepted"); }
  else { vp_cover ("rejected"); vp_assert (!want, "a string of the URI grammar is rejected"); }
}
// P02: acceptance as a URI reference; agreement with split
extern "C" void h_accept_ref () {
  auto s = vp_in (0);
  auto r = uri::split_reference (s);
  ref::uri u;
  bool want = ref::parse (s.data (), s.size (), true, u);
  vp_obs (r.has_value ());
  if (r) { vp_cover ("accepted"); vp_assert (want, "a string outside the URI-reference grammar is accepted"); }
  else { vp_cover ("rejected"); vp_assert (!want, "a string of the URI-reference grammar is rejected"); }
}
extern "C" void h_ref_agrees () {
  auto s = vp_in (0);
  auto a = uri::split (s);
  if (a) {
    vp_cover ("uri");
    auto r = uri::split_reference (s);
    vp_assert (r.has_value (), "a URI is not accepted as a reference");
    vp_assert (equal_parts (*a, *r), "URI and reference splitting differ");
  } else vp_cover ("not a uri");
}
// P03: decomposition.  param 0: 0 = split, 1 = split_reference
extern "C" void h_components () {
  auto s = vp_in (0);
  bool reference = vp_param (0) != 0;
  auto r = reference ? uri::split_reference (s) : uri::split (s);
  vp_obs (r.has_value ());
  if (!r) return;
  ref::uri u;
  if (!ref::parse (s.data (), s.size (), reference, u)) return;  // acceptance is P01 / P02
  cover_shape (*r);
  observe (*r);
  vp_assert (same (s, r->scheme, u.scheme), "scheme");
  vp_assert (r->authority.has_value () == u.authority, "presence of the authority");
  if (u.authority) {
    vp_assert (same (s, r->authority->userinfo, u.userinfo), "userinfo");
    vp_assert (same (s, r->authority->host, u.host), "host");
    vp_assert (same (s, r->authority->port, u.port), "port");
  }
  vp_assert (r->path.absolute == u.absolute, "path absolute");
  // the segments are what the slashes of the path separate; an empty path has none
  std::size_t n = 0;
  if (u.path.b < u.path.e) {
    std::size_t b = u.path.b + (u.absolute ? 1 : 0);
    for (std::size_t q = b; q <= u.path.e; ++q) {
      bool end = q == u.path.e;
      if (!end) end = s[q] == '/';
      if (!end) continue;
      vp_assert (n < r->path.segments.size (), "too few path segments");
      vp_assert (same (s, r->path.segments[n], ref::span{b, q}), "path segment");
      ++n;
      b = q + 1;
    }
  }
  vp_assert (r->path.segments.size () == n, "number of path segments");
  vp_assert (same (s, r->query, u.query), "query");
  vp_assert (same (s, r->fragment, u.fragment), "fragment");
}
// P04: compose after split is the identity
extern "C" void h_compose_split () {
  auto s = vp_in (0);
  bool reference = vp_param (0) != 0;
  auto r = reference ? uri::split_reference (s) : uri::split (s);
  vp_obs (r.has_value ());
  if (!r) { vp_cover ("rejected"); return; }
  cover_shape (*r);
  std::string c = uri::compose (*r);
  vp_obs (c);
  vp_assert (c == s, "composing the components does not give the original string");
}

namespace {
// Builds a component structure from inputs: 0 shape byte, 1 scheme, 2 userinfo, 3 host, 4 port, 5 query, 6 fragment, 7.. segments.
// param 0: mask of shape bits that are left free; param 1: value of the others; param 2: number of segments
// (3 and 4: of the second and third structure, whose inputs start at 20 and 40).
enum : unsigned { SH_SCHEME = 1, SH_AUTH = 2, SH_USER = 4, SH_PORT = 8, SH_ABS = 16, SH_QUERY = 32, SH_FRAG = 64 };
uri::parts build (int base = 0) {
  uri::parts p;
  auto shape_in = vp_in (base + 0);
  unsigned mask = static_cast<unsigned> (vp_param (0)), fixed = static_cast<unsigned> (vp_param (1));
  unsigned nseg = static_cast<unsigned> (vp_param (2 + base / 20));
  unsigned shape = static_cast<unsigned> (vp_concrete (static_cast<unsigned char> (shape_in[0]) & mask)) | (fixed & ~mask);
  auto in = [&] (int i) { return vp_in (base + i); };
  if (shape & SH_SCHEME) p.scheme = in (1);
  if (shape & SH_AUTH) {
    auto& a = p.ensure_authority ();
    if (shape & SH_USER) a.userinfo = in (2);
    a.host = in (3);
    if (shape & SH_PORT) a.port = in (4);
  }
  p.path.absolute = (shape & SH_ABS) != 0;
  for (unsigned i = 0; i < nseg; ++i) p.path.segments.push_back (in (7 + static_cast<int> (i)));
  if (shape & SH_QUERY) p.query = in (5);
  if (shape & SH_FRAG) p.fragment = in (6);
  return p;
}
// the same, and after those segments the ones that the slashes of input base + 19 separate
uri::parts build_long (int base = 0) {
  uri::parts p = build (base);
  auto const t = vp_in (base + 19);
  std::size_t b = 0;
  for (std::size_t q = 0; q < t.size (); ++q) if (t[q] == '/') { p.path.segments.push_back (t.substr (b, q - b)); b = q + 1; }
  return p;
}
bool ref_segment (std::string_view s) { return ref::chars (s.data (), s.size (), ref::X_COLON | ref::X_AT); }
bool ref_authority (struct uri::parts::authority const& a) {
  if (a.userinfo) if (!ref::chars (a.userinfo->data (), a.userinfo->size (), ref::X_COLON)) return false;
  if (!ref::host (a.host.data (), a.host.size ())) return false;
  if (a.port) if (!ref::digits (a.port->data (), a.port->size ())) return false;
  return true;
}
bool ref_valid_but_scheme (uri::parts const& p) {
  if (p.authority) if (!ref_authority (*p.authority)) return false;
  for (auto const& s : p.path.segments) if (!ref_segment (s)) return false;
  unsigned const q = ref::X_COLON | ref::X_AT | ref::X_SLASH | ref::X_QM;
  if (p.query) if (!ref::chars (p.query->data (), p.query->size (), q)) return false;
  if (p.fragment) if (!ref::chars (p.fragment->data (), p.fragment->size (), q)) return false;
  return true;
}
}  // namespace

// P05: split after compose gives equal components
static void split_compose (uri::parts const& p) {
  if (p.scheme) vp_assume (ref::scheme (p.scheme->data (), p.scheme->size ()));
  vp_assume (ref_valid_but_scheme (p));
  // the path has a form RFC 3986 section 3.3 allows next to what precedes it
  auto const& seg = p.path.segments;
  if (!p.authority) vp_assume (!(p.path.absolute && seg.empty ()));
  if (!p.authority && !seg.empty ()) {
    if (p.path.absolute) vp_assume (!(seg.size () > 1 && seg[0].empty ()));
    else {
      vp_assume (!seg[0].empty ());
      if (!p.scheme) for (char c : seg[0]) vp_assume (c != ':');
    }
  }
  cover_shape (p);
  std::string const s = uri::compose (p);
  vp_obs (s);
  auto r = p.scheme ? uri::split (s) : uri::split_reference (s);
  vp_assert (r.has_value (), "the composed string is not accepted");
  // next to an authority a path is absolute whatever the flag says
  uri::parts p2 = p;
  if (p.authority) { p2.path.absolute = r->path.absolute; vp_assert (r->path.absolute == !seg.empty (), "absolute path"); }
  vp_assert (equal_parts (*r, p2), "splitting the composed string gives other components");
  vp_assert (*r == p, "operator== denies that the components are equal");
  // the stream operators write the same text after what the stream holds
  std::ostringstream os;
  os << '>';
  vp_assert (&uri::compose (os, p) == &os, "compose () gives back another stream");
  os << '|' << p;
  std::string want = ">"; want += s; want += '|'; want += s;
  vp_assert (os.str () == want, "the text written to a stream is not the composed text");
  std::ostringstream po;
  po << p.path;
  if (p.authority) {
    std::ostringstream ao;
    ao << *p.authority;
    std::string head, tail;
    if (p.scheme) { head += *p.scheme; head += ':'; }
    head += "//"; head += ao.str ();
    if (!seg.empty () && !p.path.absolute) head += '/';
    head += po.str ();
    if (p.query) { head += '?'; head += *p.query; }
    if (p.fragment) { head += '#'; head += *p.fragment; }
    vp_assert (head == s, "the authority or path written to a stream is not that of the composed text");
  }
  vp_assert (po.str () == std::string (p.path), "the path written to a stream is not its string");
}
extern "C" void h_split_compose () { split_compose (build ()); }
extern "C" void h_split_compose_long () { split_compose (build_long ()); }
// P06: valid()
static void valid (uri::parts const& p) {
  bool rest = ref_valid_but_scheme (p);
  bool sch = false;
  if (p.scheme) sch = ref::scheme (p.scheme->data (), p.scheme->size ());
  bool got = p.valid ();
  vp_obs (got);
  if (got) vp_cover ("valid"); else vp_cover ("invalid");
  vp_assert (got == (rest && sch), "valid() disagrees with the component grammars");
  if (p.authority) vp_assert (p.authority->valid () == ref_authority (*p.authority), "authority::valid()");
  bool segs = true;
  for (auto const& s : p.path.segments) segs = ref_segment (s) && segs;
  vp_assert (p.path.valid () == segs, "path::valid()");
}
extern "C" void h_valid () { valid (build ()); }
extern "C" void h_valid_long () { valid (build_long ()); }
extern "C" void h_split_valid () {
  auto s = vp_in (0);
  auto r = uri::split (s);
  if (!r) { vp_cover ("rejected"); return; }
  vp_cover ("split");
  vp_assert (r->valid (), "a structure produced by split() is not valid()");
}
// P22: equality.  Two structures from inputs 0.. and 20..
static void equality (uri::parts const& a, uri::parts const& b) {
  bool eq = a == b;
  vp_obs (eq);
  if (eq) vp_cover ("equal"); else vp_cover ("unequal");
  vp_assert (a == a, "not reflexive");
  vp_assert ((b == a) == eq, "not symmetric");
  vp_assert ((a != b) == !eq, "!= is not the negation of ==");
  bool same_text = equal_parts (a, b);
  if (same_text) vp_assert (eq, "identical structures compare unequal");
  if (eq) {
    // with an authority the path is implicitly absolute, so the flag alone may differ
    uri::parts b2 = b;
    if (a.authority && b.authority) b2.path.absolute = a.path.absolute;
    vp_assert (equal_parts (a, b2), "structures that differ compare equal");
    vp_assert (uri::compose (a) == uri::compose (b), "equal structures compose to different strings");
  }
  bool aeq = a.authority == b.authority;
  bool atext = a.authority.has_value () == b.authority.has_value ();
  if (atext && a.authority) atext = text_eq (a.authority->userinfo, b.authority->userinfo) && a.authority->host == b.authority->host && text_eq (a.authority->port, b.authority->port);
  vp_assert (aeq == atext, "authority equality");
  bool peq = a.path == b.path;
  bool ptext = a.path.absolute == b.path.absolute && a.path.segments.size () == b.path.segments.size ();
  if (ptext) for (std::size_t i = 0; i < a.path.segments.size (); ++i) ptext = ptext && a.path.segments[i] == b.path.segments[i];
  vp_assert (peq == ptext, "path equality");
  vp_assert ((a.path != b.path) == !peq, "path inequality");
}
extern "C" void h_equality () { equality (build (0), build (20)); }
extern "C" void h_equality_long () { equality (build_long (0), build_long (20)); }
extern "C" void h_equality_trans () {
  uri::parts a = build (0), b = build (20), c = build (40);
  if (!(a == b)) { vp_cover ("unequal"); return; }
  if (!(b == c)) return;
  vp_cover ("equal");
  vp_assert (a == c, "not transitive");
}
// P23: bracketed hosts.  Input 0 is the text between the brackets.
extern "C" void h_ip_literal () {
  auto t = vp_in (0);
  std::string s = "s://["; s += t; s += "]";
  auto r = uri::split (s);
  std::string host = "["; host += t; host += "]";
  bool want = ref::ip_literal (host.data (), host.size ());
  vp_obs (r.has_value ());
  if (want) vp_cover ("ip literal"); else vp_cover ("not an ip literal");
  if (want) {
    vp_assert (r.has_value (), "a valid IP-literal host is refused");
    vp_assert (r->authority.has_value () && r->authority->host == host, "the IP-literal is not the host");
  } else if (r) {
    vp_assert (r->authority.has_value () && r->authority->host != host, "a malformed IP-literal host is accepted");
  }
  struct uri::parts::authority a;
  a.host = host;
  vp_assert (a.valid () == want, "authority::valid() on a bracketed host");
}
// P25: case of letters never matters for acceptance or boundaries: every string agrees with its lower-cased form,
// hence any two strings that differ only in the case of letters agree with each other
extern "C" void h_case () {
  auto s = vp_in (0);
  bool reference = vp_param (0) != 0;
  std::string lower;
  for (char c : s) {
    auto u = static_cast<unsigned char> (c);
    bool up = (u >= 'A') & (u <= 'Z');
    lower.push_back (static_cast<char> (up ? u + 32 : u));
  }
  auto get = [reference] (std::string_view x) { return reference ? uri::split_reference (x) : uri::split (x); };
  auto a = get (s), b = get (lower);
  vp_obs (a.has_value ());
  vp_assert (a.has_value () == b.has_value (), "lower-casing changes acceptance");
  if (!a) { vp_cover ("rejected"); return; }
  cover_shape (*a);
  auto at = [] (std::string_view whole, std::optional<std::string_view> const& x) {
    if (!x) return std::pair<std::size_t, std::size_t> (~std::size_t{0}, 0);
    return std::pair<std::size_t, std::size_t> (x->empty () ? 0 : static_cast<std::size_t> (x->data () - whole.data ()), x->size ());
  };
  auto cmp = [&] (uri::parts const& x, std::string_view xs, uri::parts const& y, std::string_view ys) {
    if (at (xs, x.scheme) != at (ys, y.scheme)) return false;
    if (x.authority.has_value () != y.authority.has_value ()) return false;
    if (x.authority) {
      if (at (xs, x.authority->userinfo) != at (ys, y.authority->userinfo)) return false;
      if (at (xs, x.authority->host) != at (ys, y.authority->host)) return false;
      if (at (xs, x.authority->port) != at (ys, y.authority->port)) return false;
    }
    if (x.path.absolute != y.path.absolute || x.path.segments.size () != y.path.segments.size ()) return false;
    for (std::size_t i = 0; i < x.path.segments.size (); ++i) if (at (xs, x.path.segments[i]) != at (ys, y.path.segments[i])) return false;
    return at (xs, x.query) == at (ys, y.query) && at (xs, x.fragment) == at (ys, y.fragment);
  };
  vp_assert (cmp (*a, s, *b, lower), "lower-casing moves a component boundary");
}
