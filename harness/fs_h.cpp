// Harness over the conversion of a path to a filesystem path (P26).
#include <filesystem>
#include <string>
#include "uri/uri.hpp"
#include "vp.hpp"

// param 0: number of segments (inputs 0...); param 1: absolute
extern "C" void h_filesystem () {
  struct uri::parts::path p;
  int n = static_cast<int> (vp_param (0));
  p.absolute = vp_param (1) != 0;
  // the elements: the segments that are not empty, in order; an empty last segment is a path that ends in '/'
  std::string want = p.absolute ? "/" : "";
  for (int k = 0; k < n; ++k) {
    auto const s = vp_in (k);
    for (char c : s) vp_assume (c != '/');
    p.segments.push_back (s);
    if (!want.empty () && want.back () != '/') want.push_back ('/');
    want.append (s);
  }
  struct uri::parts::path const was = p;
  std::filesystem::path const f (p);
  std::string const& got = f.native ();
  vp_obs (got);
  vp_cover (p.absolute ? "absolute" : "relative");
  vp_assert (got == want, "the filesystem path does not hold the segments");
  bool abs = false;
  if (!got.empty ()) abs = got[0] == '/';
  vp_assert (abs == p.absolute, "absolute");
  vp_assert (p == was, "the conversion changes the path");
}
// a path that was split off a URI. input 0: text
extern "C" void h_filesystem_split () {
  auto const r = uri::split_reference (vp_in (0));
  if (!r) return;
  std::string want = r->path.absolute ? "/" : "";
  for (auto s : r->path.segments) {
    if (!want.empty () && want.back () != '/') want.push_back ('/');
    want.append (s);
  }
  std::filesystem::path const f (r->path);
  vp_obs (f.native ());
  vp_cover (r->path.absolute ? "absolute" : "relative");
  vp_assert (f.native () == want, "the filesystem path does not hold the segments");
}
