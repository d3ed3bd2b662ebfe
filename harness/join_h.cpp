// Harnesses over uri::join and parts::path::remove_dot_segments.
#include "ref_uri.hpp"
#include "uri/uri.hpp"

namespace {
// RFC 3986 section 5.2.4, on strings, step by step
std::string remove_dots (std::string in) {
  std::string out;
  auto starts = [&in] (char const* s) { std::size_t k = 0; for (; s[k]; ++k) { if (k >= in.size ()) return false; if (in[k] != s[k]) return false; } return true; };
  auto whole = [&in] (char const* s) { std::size_t k = 0; for (; s[k]; ++k) { if (k >= in.size ()) return false; if (in[k] != s[k]) return false; } return k == in.size (); };
  auto pop = [&out] { while (!out.empty ()) { bool slash = out.back () == '/'; out.pop_back (); if (slash) break; } };
  while (!in.empty ()) {
    if (starts ("../")) in = in.substr (3);
    else if (starts ("./")) in = in.substr (2);
    else if (starts ("/./")) in = in.substr (2);
    else if (whole ("/.")) in = "/";
    else if (starts ("/../")) { in = in.substr (3); pop (); }
    else if (whole ("/..")) { in = "/"; pop (); }
    else if (whole (".") || whole ("..")) in.clear ();
    else {
      std::size_t k = in[0] == '/' ? 1 : 0;
      while (k < in.size ()) { if (in[k] == '/') break; ++k; }
      out += in.substr (0, k);
      in = in.substr (k);
    }
  }
  return out;
}
bool has_dot_segment (std::string_view p) {
  std::size_t b = 0;
  for (;;) {
    std::size_t e = b;
    while (e < p.size ()) { if (p[e] == '/') break; ++e; }
    if (e - b == 1) { if (p[b] == '.') return true; }
    if (e - b == 2) { if (p[b] == '.') if (p[b + 1] == '.') return true; }
    if (e >= p.size ()) return false;
    b = e + 1;
  }
}
// segments of a path written as text; absolute paths begin with '/'
struct uri::parts::path to_path (std::string_view s) {
  struct uri::parts::path p;
  if (s.empty ()) return p;
  std::size_t b = 0;
  if (s[0] == '/') { p.absolute = true; b = 1; }
  for (std::size_t q = b; q < s.size (); ++q) if (s[q] == '/') { p.segments.push_back (s.substr (b, q - b)); b = q + 1; }
  p.segments.push_back (s.substr (b));
  return p;
}
std::string_view piece (std::string_view s, ref::span x) { return s.substr (x.b, x.e - x.b); }
bool same (std::optional<std::string_view> const& got, bool has, std::string_view want) {
  if (got.has_value () != has) return false;
  return !has || *got == want;
}
}  // namespace

// P08, absolute paths: input 0 follows a '/'
extern "C" void h_dots_absolute () {
  auto t = vp_in (0);
  std::string s = "/"; s += t;
  auto p = to_path (s);
  p.remove_dot_segments ();
  std::string const got = static_cast<std::string> (p);
  std::string const want = remove_dots (s);
  vp_obs (got);
  vp_cover (has_dot_segment (s) ? "dot segments" : "no dot segment");
  vp_assert (p.absolute, "an absolute path became relative");
  vp_assert (got == want, "remove_dot_segments differs from RFC 3986 5.2.4");
  for (auto const& seg : p.segments) {
    vp_assert (!(seg.size () == 1 && seg[0] == '.'), "a '.' segment remains");
    vp_assert (!(seg.size () == 2 && seg[0] == '.' && seg[1] == '.'), "a '..' segment remains");
  }
  auto q = p;
  q.remove_dot_segments ();
  vp_assert (q == p, "not idempotent (absolute path)");
}
// P08, relative paths: no dot segment remains, idempotence, and identity without dot segments
extern "C" void h_dots_relative () {
  auto s = vp_in (0);
  auto p = to_path (s);
  p.absolute = false;
  auto const before = p;
  p.remove_dot_segments ();
  std::string const got = static_cast<std::string> (p);
  vp_obs (got);
  bool dots = false;
  for (auto const& seg : before.segments) dots = dots || seg == "." || seg == "..";
  vp_cover (dots ? "relative with dot segments" : "relative without");
  for (auto const& seg : p.segments) {
    vp_assert (!(seg.size () == 1 && seg[0] == '.'), "a '.' segment remains");
    vp_assert (!(seg.size () == 2 && seg[0] == '.' && seg[1] == '.'), "a '..' segment remains");
  }
  if (!dots) vp_assert (p == before, "a path without dot segments is changed");
  auto q = p;
  q.remove_dot_segments ();
  vp_assert (q == p, "not idempotent (relative path)");
}

namespace {
// components of a string according to the reference parser
uri::parts parts_of (std::string_view s, ref::uri const& u) {
  uri::parts p;
  if (u.scheme.has ()) p.scheme = piece (s, u.scheme);
  if (u.authority) {
    auto& a = p.authority.emplace ();
    if (u.userinfo.has ()) a.userinfo = piece (s, u.userinfo);
    a.host = piece (s, u.host);
    if (u.port.has ()) a.port = piece (s, u.port);
  }
  p.path = to_path (piece (s, u.path));
  if (u.query.has ()) p.query = piece (s, u.query);
  if (u.fragment.has ()) p.fragment = piece (s, u.fragment);
  return p;
}
// RFC 3986 section 5.2.2: what the target of reference r (parsed: R) against base b (parsed: B) is, compared with `got`
void check_target (std::string_view b, ref::uri const& B, std::string_view r, ref::uri const& R, bool strict, uri::parts const& got) {
  bool has_scheme = R.scheme.has ();
  if (!strict && has_scheme && piece (r, R.scheme) == piece (b, B.scheme)) { has_scheme = false; vp_cover ("same scheme ignored"); }
  std::string_view scheme;
  bool auth, query_from_base = false;
  bool auth_from_base = false;
  std::string path;
  bool exact = true;
  std::string const rpath{piece (r, R.path)}, bpath{piece (b, B.path)};
  if (has_scheme) {
    scheme = piece (r, R.scheme);
    path = remove_dots (rpath);
    exact = rpath.empty () || rpath[0] == '/' || !has_dot_segment (rpath);
    vp_cover ("reference with scheme");
  } else {
    scheme = piece (b, B.scheme);
    if (R.authority) {
      path = remove_dots (rpath);
      vp_cover ("reference with authority");
    } else {
      auth_from_base = true;
      if (rpath.empty ()) {
        path = bpath;
        query_from_base = !R.query.has ();
        vp_cover ("empty reference path");
      } else if (rpath[0] == '/') {
        path = remove_dots (rpath);
        vp_cover ("absolute reference path");
      } else {
        std::string m;
        if (B.authority && bpath.empty ()) m = "/" + rpath;
        else {
          std::size_t k = bpath.size ();
          while (k > 0) { if (bpath[k - 1] == '/') break; --k; }
          m = bpath.substr (0, k) + rpath;
        }
        path = remove_dots (m);
        exact = m[0] == '/' || !has_dot_segment (m);
        vp_cover (exact ? "merged" : "merged onto a rootless path");
      }
    }
  }
  auth = auth_from_base ? B.authority : R.authority;
  auto const& A = auth_from_base ? B : R;
  auto const as = auth_from_base ? b : r;
  vp_assert (same (got.scheme, true, scheme), "scheme of the target");
  vp_assert (got.authority.has_value () == auth, "presence of the target's authority");
  if (auth) {
    vp_assert (same (got.authority->userinfo, A.userinfo.has (), A.userinfo.has () ? piece (as, A.userinfo) : std::string_view{}), "userinfo of the target");
    vp_assert (got.authority->host == piece (as, A.host), "host of the target");
    vp_assert (same (got.authority->port, A.port.has (), A.port.has () ? piece (as, A.port) : std::string_view{}), "port of the target");
  }
  std::string const gp = static_cast<std::string> (got.path);
  vp_obs (gp);
  // RFC 5.2.4 is only meaningful for paths that begin with '/'; elsewhere only paths without dot segments are compared
  if (exact) {
    vp_assert (gp == path, "path of the target");
    vp_assert (got.path.absolute == (!path.empty () && path[0] == '/'), "absoluteness of the target's path");
  }
  auto const& Q = query_from_base ? B : R;
  auto const qs = query_from_base ? b : r;
  vp_assert (same (got.query, Q.query.has (), Q.query.has () ? piece (qs, Q.query) : std::string_view{}), "query of the target");
  vp_assert (same (got.fragment, R.fragment.has (), R.fragment.has () ? piece (r, R.fragment) : std::string_view{}), "fragment of the target");
}
}  // namespace

// P07, joining strings.  Input 0: base string, input 1: reference string.  param 0: strict.
extern "C" void h_join () {
  auto b = vp_in (0), r = vp_in (1);
  bool strict = vp_param (0) != 0;
  auto got = uri::join (b, r, strict);
  ref::uri B, R;
  bool bok = ref::parse (b.data (), b.size (), false, B);
  bool rok = ref::parse (r.data (), r.size (), true, R);
  vp_obs (got.has_value ());
  vp_assert (got.has_value () == (bok && rok), "join succeeds exactly when both strings parse");
  if (!got) { vp_cover ("nothing"); return; }
  check_target (b, B, r, R, strict, *got);
}
// P07, joining components (of strings taken apart by the reference parser), from which longer strings are in reach
extern "C" void h_join_parts () {
  auto b = vp_in (0), r = vp_in (1);
  bool strict = vp_param (0) != 0;
  ref::uri B, R;
  vp_assume (ref::parse (b.data (), b.size (), false, B));
  vp_assume (ref::parse (r.data (), r.size (), true, R));
  auto const bp = parts_of (b, B), rp = parts_of (r, R);
  auto const got = uri::join (bp, rp, strict);
  check_target (b, B, r, R, strict, got);
}
