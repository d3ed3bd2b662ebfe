// Harnesses over the Punycode encoder and decoder (P12, P13).
#include "uri/punycode.hpp"
#include "ref_puny.hpp"
#include "vp.hpp"

namespace {
using namespace ref_puny;
// param 0: number of inputs; each is one code point, big endian, of at most 4 bytes, or (param 2) any number of code points of 3 bytes
std::u32string points () {
  std::u32string r;
  int n = static_cast<int> (vp_param (0));
  for (int k = 0; k < n; ++k) {
    auto const s = vp_in (k);
    std::size_t const w = vp_param (2) ? 3 : s.size ();
    for (std::size_t i = 0; i < s.size (); i += w) {
      char32_t c = 0;
      for (std::size_t j = i; j < i + w; ++j) c = c * 256 + static_cast<unsigned char> (s[j]);
      vp_assume (c <= 0x10FFFF);
      r.push_back (c);
    }
  }
  return r;
}
void obs32 (std::u32string const& s) { vp_obs (std::string_view (reinterpret_cast<char const*> (s.data ()), s.size () * 4)); }
}  // namespace

// P12. param 0: number of code points; param 1: allow plain output
extern "C" void h_puny_encode () {
  auto const s = points ();
  bool plain = vp_param (1) != 0;
  bool basic = true;
  for (char32_t c : s) basic = basic & (c < 0x80);
  std::string out;
  auto [it, o, encoded] = uri::punycode::encode (s, plain, std::back_inserter (out));
  vp_obs (out);
  vp_obs (encoded);
  vp_assert (encoded == !basic, "flag: the text holds non-basic code points");
  vp_assert (it == s.end (), "the encoder stops before the end of the text");
  if (basic && plain) {
    vp_cover ("passed through");
    std::string want;
    for (char32_t c : s) want.push_back (static_cast<char> (c));
    vp_assert (out == want, "plain text is changed");
    return;
  }
  vp_cover (basic ? "all basic" : "encoded");
  vp_assert (out == ref_encode (s), "the encoding is not that of RFC 3492");
}
extern "C" void h_puny_round () {
  auto const s = points ();
  std::string out;
  uri::punycode::encode (s, false, std::back_inserter (out));
  vp_obs (out);
  auto r = uri::punycode::decode (out);
  auto* ok = std::get_if<1> (&r);
  if (!ok) { vp_fail ("the decoder refuses the encoder's output"); return; }
  obs32 (ok->str);
  vp_assert (ok->str == s, "decoding the encoded text does not give the text");
  vp_assert (ok->in == out.end (), "the decoder stops before the end");
  vp_cover ("round trip");
}
// P13. input 0: text
extern "C" void h_puny_decode () {
  auto const s = vp_in (0);
  std::u32string want;
  auto w = ref_decode (s, want);
  auto r = uri::punycode::decode (s);
  if (auto* e = std::get_if<0> (&r)) {
    vp_obs (false);
    vp_cover (w == dec::overflow ? "overflow" : "bad input");
    vp_assert (w != dec::ok, "the decoder refuses valid input");
    vp_assert (static_cast<bool> (*e), "a failure carries the error code 0");
    vp_assert (*e == uri::punycode::make_error_code (w == dec::overflow ? uri::punycode::decode_error_code::overflow : uri::punycode::decode_error_code::bad_input), "kind of error");
    return;
  }
  vp_obs (true);
  vp_cover ("decoded");
  auto& ok = std::get<1> (r);
  obs32 (ok.str);
  vp_assert (w == dec::ok, "the decoder accepts invalid input");
  vp_assert (ok.str == want, "the decoded text is not that of RFC 3492");
  vp_assert (ok.in == s.end (), "the decoder stops before the end");
}
