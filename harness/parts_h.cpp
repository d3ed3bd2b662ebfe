// Harnesses over the encoding and decoding of components into a store (P14, P15).
#include "uri/parts.hpp"
#include "ref_pct.hpp"
#include "ref_puny.hpp"
#include "ref_utf.hpp"
#include "vp.hpp"

namespace {
using u8 = unsigned char;
// a component: where it is in the structure, what it holds
enum kind { SCHEME, USERINFO, HOST, PORT, QUERY, FRAGMENT, SEGMENT };
// param 0: which components are present (bit = kind); param 1: number of segments (inputs 10...); param 2: absolute path;
// param 3: 1 + the component, or 7 + the segment, that is a null view
struct input {
  uri::parts p;
  input () {
    auto bits = static_cast<unsigned> (vp_param (0));
    int nul = static_cast<int> (vp_param (3));
    auto in = [&] (int k) { return nul == 1 + k ? std::string_view{} : vp_in (k); };
    if (bits & 1U << SCHEME) p.scheme = in (SCHEME);
    if (bits & (1U << USERINFO | 1U << HOST | 1U << PORT)) {
      auto& a = p.ensure_authority ();
      if (bits & 1U << USERINFO) a.userinfo = in (USERINFO);
      a.host = in (HOST);
      if (bits & 1U << PORT) a.port = in (PORT);
    }
    if (bits & 1U << QUERY) p.query = in (QUERY);
    if (bits & 1U << FRAGMENT) p.fragment = in (FRAGMENT);
    p.path.absolute = vp_param (2) != 0;
    int n = static_cast<int> (vp_param (1));
    for (int k = 0; k < n; ++k) p.path.segments.push_back (nul == 7 + k ? std::string_view{} : vp_in (10 + k));
  }
};
// calls f (component of a, component of b, kind) for each; false when the structures differ
template <class F> bool each (uri::parts const& a, uri::parts const& b, F f) {
  if (a.scheme.has_value () != b.scheme.has_value () || a.authority.has_value () != b.authority.has_value ()) return false;
  if (a.query.has_value () != b.query.has_value () || a.fragment.has_value () != b.fragment.has_value ()) return false;
  if (a.path.absolute != b.path.absolute || a.path.segments.size () != b.path.segments.size ()) return false;
  if (a.scheme) f (*a.scheme, *b.scheme, SCHEME);
  if (a.authority) {
    if (a.authority->userinfo.has_value () != b.authority->userinfo.has_value () || a.authority->port.has_value () != b.authority->port.has_value ()) return false;
    if (a.authority->userinfo) f (*a.authority->userinfo, *b.authority->userinfo, USERINFO);
    f (a.authority->host, b.authority->host, HOST);
    if (a.authority->port) f (*a.authority->port, *b.authority->port, PORT);
  }
  for (std::size_t k = 0; k < a.path.segments.size (); ++k) f (a.path.segments[k], b.path.segments[k], SEGMENT);
  if (a.query) f (*a.query, *b.query, QUERY);
  if (a.fragment) f (*a.fragment, *b.fragment, FRAGMENT);
  return true;
}
bool prefixed (std::string_view l) { return l.size () >= 4 && (l[0] == 'x') & (l[1] == 'n') & (l[2] == '-') & (l[3] == '-'); }
// calls f (label) for each label; what joins them is '.'
template <class F> void labels (std::string_view h, F f) {
  std::size_t b = 0;
  for (std::size_t i = 0; i < h.size (); ++i) if (h[i] == '.') { f (h.substr (b, i - b)); b = i + 1; }
  f (h.substr (b));
}
bool utf32 (std::string_view l, std::u32string& out) {
  auto n = l.size ();
  auto* d = new char8_t[n];
  for (std::size_t i = 0; i < n; ++i) d[i] = static_cast<char8_t> (l[i]);
  bool ok = true;
  for (std::size_t i = 0; i < n;) {
    char32_t c = 0; bool part = false;
    auto len = ref_utf::dec (d, i, n, c, part);
    if (len == 0) { ok = false; break; }
    out.push_back (c);
    i += len;
  }
  delete[] d;
  return ok;
}
// the encoding of a host; false if it is not UTF-8
bool host_encoded (std::string_view h, std::string& out) {
  bool ok = true, first = true;
  labels (h, [&] (std::string_view l) {
    if (!first) out.push_back ('.');
    first = false;
    bool ascii = true;
    for (char c : l) if (static_cast<u8> (c) >= 0x80) { ascii = false; break; }
    if (ascii) { out.append (l); return; }
    std::u32string w;
    if (!utf32 (l, w)) { ok = false; return; }
    out.append ("xn--");
    out.append (ref_puny::ref_encode (w));
  });
  return ok;
}
// the decoding of a host; false if it has a malformed label
bool host_decoded (std::string_view h, std::string& out) {
  bool ok = true, first = true;
  labels (h, [&] (std::string_view l) {
    if (!first) out.push_back ('.');
    first = false;
    if (!prefixed (l)) { out.append (l); return; }
    std::u32string w;
    if (ref_puny::ref_decode (l.substr (4), w) != ref_puny::dec::ok) { ok = false; return; }
    for (char32_t c : w) {
      ref_utf::sink<char8_t> s;
      ref_utf::enc (ref_utf::scalar (c) ? c : ref_utf::FFFD, s);
      for (std::size_t i = 0; i < s.n; ++i) out.push_back (static_cast<char> (s.d[i]));
    }
  });
  return ok;
}
int set_of (kind k) { return k == USERINFO ? 4 : k == SEGMENT ? 3 : k == QUERY ? 1 : 0; }
// the encoding of a component
bool encoded (std::string_view s, kind k, std::string& out) {
  if (k == SCHEME || k == PORT) { out = s; return true; }
  if (k == HOST) return host_encoded (s, out);
  out = ref_pct::ref_encode (s, set_of (k));
  return true;
}
bool decoded (std::string_view s, kind k, std::string& out) {
  if (k == HOST) return host_decoded (s, out);
  out = ref_pct::ref_decode (s);
  return true;
}
void observe (uri::parts const& p) { each (p, p, [] (std::string_view s, std::string_view, kind) { vp_obs (s); }); }
bool inside (std::string_view s, char const* b, std::size_t n) {
  auto lo = reinterpret_cast<std::uintptr_t> (b), p = reinterpret_cast<std::uintptr_t> (s.data ());
  return p >= lo && p + s.size () <= lo + n;
}
// every component of r is that of p, unchanged, or lies in the store; what lies in the store fills it without overlap
template <class Store> void stored (uri::parts const& p, uri::parts const& r, Store const& store) {
  std::size_t total = 0;
  std::vector<std::string_view> pieces;
  bool same = each (p, r, [&] (std::string_view a, std::string_view b, kind) {
    if (a.data () == b.data ()) { vp_assert (a.size () == b.size (), "a component that refers to the original text has another length"); vp_cover ("unchanged"); return; }
    vp_cover ("stored");
    vp_assert (inside (b, store.data (), store.size ()), "a component refers neither to the original nor to the store");
    total += b.size ();
    pieces.push_back (b);
  });
  vp_assert (same, "the structure of the components is changed");
  vp_assert (total == store.size (), "the components do not fill the store");
  for (std::size_t i = 0; i < pieces.size (); ++i)
    for (std::size_t j = 0; j < i; ++j)
      vp_assert (pieces[i].data () >= pieces[j].data () + pieces[j].size () || pieces[j].data () >= pieces[i].data () + pieces[i].size (), "components overlap in the store");
}
template <class Store> void run_encode () {
  input const in;
  // scheme and port of their grammar, host of IDN labels in UTF-8
  if (in.p.scheme) for (char c : *in.p.scheme) vp_assume ((c != '%') & (static_cast<u8> (c) < 0x80));
  if (in.p.authority && in.p.authority->port) for (char c : *in.p.authority->port) vp_assume ((c >= '0') & (c <= '9'));
  if (in.p.authority) labels (in.p.authority->host, [] (std::string_view l) { vp_assume (!prefixed (l)); });
  Store store (3, 'x');
  auto const e = uri::encode (store, in.p);
  observe (e);
  bool structure = each (in.p, e, [] (std::string_view a, std::string_view b, kind k) {
    std::string want;
    bool utf8 = encoded (a, k, want);
    vp_assume (utf8);
    vp_assert (b == want, "a component is not encoded as its kind prescribes");
    vp_cover (b == a ? "as it was" : k == HOST ? "host encoded" : "encoded");
  });
  vp_assert (structure, "encoding changes the structure of the components");
  Store back (20, 'y');
  auto const d = uri::decode (back, e);
  auto const* q = std::get_if<1> (&d);
  if (!q) { vp_fail ("encoded components cannot be decoded"); return; }
  structure = each (in.p, *q, [] (std::string_view a, std::string_view b, kind) { vp_assert (a == b, "decoding the encoded component does not give the original"); });
  vp_assert (structure, "decoding changes the structure of the components");
}
template <class Store> void run_store () {
  input const in;
  Store store (vp_param (5) ? 40 : 3, 'x');
  auto const e = uri::encode (store, in.p);
  observe (e);
  vp_obs (std::string_view (store.data (), store.size ()));
  stored (in.p, e, store);
}
template <class Store> void run_decode () {
  input const in;
  Store store (vp_param (5) ? 40 : 3, 'x');
  auto const d = uri::decode (store, in.p);
  bool good = true;
  each (in.p, in.p, [&] (std::string_view a, std::string_view, kind k) { std::string w; if (k == HOST) if (!decoded (a, k, w)) good = false; });
  auto const* q = std::get_if<1> (&d);
  vp_obs (q != nullptr);
  if (!q) {
    vp_cover ("malformed host");
    vp_assert (!good, "decoding refuses well-formed components");
    vp_assert (static_cast<bool> (std::get<0> (d)), "a failure carries the error code 0");
    return;
  }
  vp_assert (good, "a malformed internationalised label is not reported");
  observe (*q);
  vp_obs (std::string_view (store.data (), store.size ()));
  stored (in.p, *q, store);
  each (in.p, *q, [] (std::string_view a, std::string_view b, kind k) {
    std::string want;
    decoded (a, k, want);
    bool esc = false;
    if (k == HOST) labels (a, [&] (std::string_view l) { esc = esc | prefixed (l); });
    else for (char c : a) esc = esc | (c == '%');
    if (!esc) vp_assert (a.data () == b.data (), "a component without escapes does not refer to the original");
    // a host that decodes to nothing is left as it is
    if (k == HOST && want.empty ()) { vp_assert (b.empty () || b == a, "host"); return; }
    vp_assert (b == want, "a component is not decoded as its kind prescribes");
  });
}
}  // namespace

// param 4: 1 for a std::string store; param 5: a store that is long beforehand
extern "C" void h_encode_decode () { if (vp_param (4)) run_encode<std::string> (); else run_encode<std::vector<char>> (); }
extern "C" void h_store_encode () { if (vp_param (4)) run_store<std::string> (); else run_store<std::vector<char>> (); }
extern "C" void h_store_decode () { if (vp_param (4)) run_decode<std::string> (); else run_decode<std::vector<char>> (); }
