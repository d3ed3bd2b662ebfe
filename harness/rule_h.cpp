// Harnesses over the grammar combinators (P21).
#include <string>
#include <vector>
#include "uri/rule.hpp"
#include "vp.hpp"

namespace {
// A grammar in prefix notation:
//   a..z     that character, upper or lower case
//   [xy      any character from x to y
//   @ # $    alpha, digit, hexdig
//   .AB      concatenation       /AB  alternative      |ABC  alternative of three
//   ?A       optional            *mnA repetition, m to n times (a digit, or A to R: 15 to 65537, see number; 'n': no upper limit; '-' for both: the default)
//   ,AB and :A  concatenation and optional with an acceptor on A
struct node { char op; char x = 0, y = 0; int id = 0; int a = -1, b = -1, c = -1; };
std::vector<node>* G;
int parse (std::string_view g, std::size_t& i, int& ids) {
  node n{g[i++]};
  switch (n.op) {
  case '[': n.x = g[i]; n.y = g[i + 1]; i += 2; break;
  case '*': n.x = g[i]; n.y = g[i + 1]; i += 2; n.a = parse (g, i, ids); break;
  case '?': n.a = parse (g, i, ids); break;
  case ':': n.id = ++ids; n.a = parse (g, i, ids); break;
  case ',': n.id = ++ids; n.a = parse (g, i, ids); n.b = parse (g, i, ids); break;
  case '.': case '/': n.a = parse (g, i, ids); n.b = parse (g, i, ids); break;
  case '|': n.a = parse (g, i, ids); n.b = parse (g, i, ids); n.c = parse (g, i, ids); break;
  default: break;
  }
  G->push_back (n);
  return static_cast<int> (G->size ()) - 1;
}
struct event { int id; char const* p; std::size_t n; };
std::vector<event>* L;
struct acceptor { int id; void operator() (std::string_view s) const { L->push_back ({id, s.data (), s.size ()}); } };
unsigned number (char c) {
  static constexpr unsigned large[] = {15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 65535, 65536, 65537};  // A to R
  return c >= 'A' ? large[c - 'A'] : static_cast<unsigned> (c - '0');
}
struct matcher {
  int k;
  uri::rule::matched_result operator() (uri::rule const& r) const {
    node const n = (*G)[static_cast<std::size_t> (k)];
    matcher const A{n.a}, B{n.b}, C{n.c};
    switch (n.op) {
    case '[': return uri::char_range (n.x, n.y) (r);
    case '@': return uri::alpha (r);
    case '#': return uri::digit (r);
    case '$': return uri::hexdig (r);
    case '.': return r.concat (A).concat (B).matched (".", r);
    case ',': return r.concat (A, acceptor{n.id}).concat (B).matched (",", r);
    case '/': return r.alternative (A, B).matched ("/", r);
    case '|': return r.alternative (A, B, C).matched ("|", r);
    case '?': return r.optional (A).matched ("?", r);
    case ':': return r.optional (A, acceptor{n.id}).matched (":", r);
    case '*': return (n.x == '-' ? r.star (A) : n.y == 'n' ? r.star (A, number (n.x)) : r.star (A, number (n.x), number (n.y))).matched ("*", r);
    default: return r.single_char (n.op);
    }
  }
};
// the definitions: ordered choice, greedy repetition; -1: no match
int ref (int k, std::string_view s, int i, std::vector<event>& log) {
  node const n = (*G)[static_cast<std::size_t> (k)];
  int const len = static_cast<int> (s.size ());
  auto one = [&] (auto in) { if (i >= len) return -1; return in (static_cast<unsigned char> (s[static_cast<std::size_t> (i)])) ? i + 1 : -1; };
  auto low = [] (unsigned c) { return c + (((c >= 'A') & (c <= 'Z')) ? 32u : 0u); };
  auto keep = log.size ();
  auto fail = [&] { log.resize (keep); return -1; };
  auto note = [&] (int j) { log.push_back ({n.id, s.data () + i, static_cast<std::size_t> (j - i)}); };
  switch (n.op) {
  case '[': { unsigned x = static_cast<unsigned char> (n.x), y = static_cast<unsigned char> (n.y); return one ([&] (unsigned c) { return (low (c) >= low (x)) & (low (c) <= low (y)); }); }
  case '@': return one ([&] (unsigned c) { return (low (c) >= 'a') & (low (c) <= 'z'); });
  case '#': return one ([] (unsigned c) { return (c >= '0') & (c <= '9'); });
  case '$': return one ([&] (unsigned c) { return ((c >= '0') & (c <= '9')) | ((low (c) >= 'a') & (low (c) <= 'f')); });
  case '.': case ',': {
    int j = ref (n.a, s, i, log);
    if (j < 0) return fail ();
    if (n.op == ',') note (j);
    int e = ref (n.b, s, j, log);
    return e < 0 ? fail () : e; }
  case '/': case '|':
    for (int alt : {n.a, n.b, n.c}) { if (alt < 0) break; int j = ref (alt, s, i, log); if (j >= 0) return j; }
    return -1;
  case '?': case ':': {
    int j = ref (n.a, s, i, log);
    if (j < 0) return i;
    if (n.op == ':') note (j);
    return j; }
  case '*': {
    unsigned min = n.x == '-' ? 0 : number (n.x), max = n.x == '-' || n.y == 'n' ? ~0u : number (n.y), count = 0;
    int p = i;
    while (count < max) { int j = ref (n.a, s, p, log); if (j < 0) break; p = j; ++count; }
    return count < min ? fail () : p; }
  default: { unsigned x = low (static_cast<unsigned char> (n.op)); return one ([&] (unsigned c) { return low (c) == x; }); }
  }
}
}  // namespace

// input 0: text; input 1: grammar
extern "C" void h_grammar () {
  auto const s = vp_in (0);
  std::vector<node> nodes; G = &nodes;
  std::vector<event> log, want; L = &log;
  std::size_t i = 0; int ids = 0;
  int const top = parse (vp_in (1), i, ids);
  int const end = ref (top, s, 0, want);
  uri::rule const start{s};
  {
    // the whole text
    auto r = start.concat (matcher{top}, acceptor{100});
    vp_assert (log.empty (), "an acceptor runs before the match is complete");
    auto t = r.tail ();
    vp_assert (t.has_value () == (end >= 0), end >= 0 ? "a match is refused" : "text that does not match is taken");
    if (end >= 0) vp_assert (t->data () == s.data () + end && t->size () == s.size () - static_cast<std::size_t> (end), "what is left after the match");
    bool done = r.done ();
    vp_obs (done);
    bool full = end == static_cast<int> (s.size ());
    vp_cover (full ? "complete" : end >= 0 ? "partial" : "no match");
    vp_assert (done == full, "done () is not whether the whole text matched");
    if (!done) { vp_assert (log.empty (), "acceptors run although the text does not match completely"); return; }
    want.push_back ({100, s.data (), static_cast<std::size_t> (end)});
    vp_assert (log.size () == want.size (), "number of acceptor calls");
    for (std::size_t k = 0; k < want.size (); ++k) {
      vp_assert (log[k].id == want[k].id, "order of the acceptor calls");
      vp_assert (log[k].p == want[k].p && log[k].n == want[k].n, "text given to an acceptor");
      vp_cover ("acceptor");
    }
  }
}
// failure is passed on: nothing matches after a failed concatenation
extern "C" void h_failed () {
  auto const s = vp_in (0);
  std::vector<node> nodes; G = &nodes;
  std::vector<event> log; L = &log;
  nodes.push_back ({'a'}); nodes.push_back ({'b'});
  matcher const A{0}, B{1};
  auto r = uri::rule{s}.concat (A, acceptor{1});
  bool ok = false;
  if (!s.empty ()) ok = (s[0] == 'a') | (s[0] == 'A');
  vp_cover (ok ? "matched" : "failed");
  vp_assert (r.tail ().has_value () == ok, "concat");
  if (ok) return;
  vp_assert (!r.concat (A).tail (), "concat after a failure");
  vp_assert (!r.optional (A).tail (), "optional after a failure");
  vp_assert (!r.optional (A, acceptor{2}).tail (), "optional with acceptor after a failure");
  vp_assert (!r.star (A).tail (), "star after a failure");
  vp_assert (!r.star (A, 0, 2).tail (), "star after a failure");
  vp_assert (!r.alternative (A, B).tail (), "alternative after a failure");
  vp_assert (!r.concat (A).done () && !r.optional (A).done () && !r.star (A).done () && !r.alternative (A, B).done (), "done after a failure");
  vp_assert (!r.matched ("x", uri::rule{s}), "matched after a failure");
  vp_assert (log.empty (), "an acceptor runs after a failure");
}
