// Native runtime of the harness interface: runs a harness on concrete inputs against the real, natively compiled library.
//   vp_native CASES           run every case of the file, each in a child process, and print one result line per case
// Case file: lines "case <entry>", "p <idx> <value>", "i <idx> <hex or ->", "end".
// Result line: "<n> <status> <obs hex or -> <message>", status one of ok, assume, known, fail, crash.
#include "vp.hpp"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fstream>
#include <iostream>
#include <map>
#include <sstream>
#include <string>
#include <vector>
#include <dlfcn.h>
#include <sys/wait.h>
#include <unistd.h>
#include <fcntl.h>

namespace {
struct Case { std::string entry; std::map<int, long long> p; std::map<int, std::string> in; };
Case cur;
std::vector<unsigned char> obs;
int out_fd = 1;
[[noreturn]] void finish (char const* status, std::string const& msg) {
  std::string s = status; s += ' ';
  if (obs.empty ()) s += '-';
  else for (auto b : obs) { char t[3]; std::snprintf (t, 3, "%02x", b); s += t; }
  s += ' '; s += msg; s += '\n';
  if (write (out_fd, s.data (), s.size ()) < 0) {}
  _exit (0);
}
}  // namespace
extern "C" {
char* vp_input (int idx, std::size_t* len) {
  auto const& s = cur.in.at (idx);
  *len = s.size ();
  char* p = static_cast<char*> (std::malloc (s.size ()));
  std::memcpy (p, s.data (), s.size ());
  return p;
}
std::int64_t vp_param (int idx) { return cur.p.at (idx); }
void vp_assume (bool c) { if (!c) finish ("assume", ""); }
void vp_assert (bool c, char const* msg) { if (!c) finish ("fail", msg); }
void vp_fail (char const* msg) { finish ("fail", msg); }
void vp_cover (char const*) {}
void vp_known (char const* id) { finish ("known", id); }
void vp_observe (void const* p, std::size_t n) { auto* q = static_cast<unsigned char const*> (p); obs.insert (obs.end (), q, q + n); }
std::uint64_t vp_concrete (std::uint64_t v) { return v; }
}
int main (int argc, char** argv) {
  std::ifstream f (argc > 1 ? argv[1] : "/dev/stdin");
  std::string line; std::vector<Case> cases; Case c;
  while (std::getline (f, line)) {
    std::istringstream is (line); std::string k; is >> k;
    if (k == "case") { c = Case{}; is >> c.entry; }
    else if (k == "p") { int i; long long v; is >> i >> v; c.p[i] = v; }
    else if (k == "i") { int i; std::string h; is >> i >> h; std::string b; if (h != "-") for (size_t q = 0; q + 1 < h.size (); q += 2) b += (char)std::stoi (h.substr (q, 2), nullptr, 16); c.in[i] = b; }
    else if (k == "end") cases.push_back (c);
  }
  for (size_t n = 0; n < cases.size (); ++n) {
    int pfd[2]; if (pipe (pfd)) return 4;
    pid_t pid = fork ();
    if (pid == 0) {
      close (pfd[0]); out_fd = pfd[1]; cur = cases[n]; alarm (120);
      auto fn = reinterpret_cast<void (*) ()> (dlsym (RTLD_DEFAULT, cur.entry.c_str ()));
      if (!fn) { std::fprintf (stderr, "no entry %s\n", cur.entry.c_str ()); _exit (9); }
      try { fn (); } catch (std::exception const& e) { finish ("fail", std::string ("exception escapes: ") + e.what ()); } catch (...) { finish ("fail", "exception escapes"); }
      finish ("ok", "");
    }
    close (pfd[1]); std::string r; char buf[4096]; ssize_t k;
    while ((k = read (pfd[0], buf, sizeof buf)) > 0) r.append (buf, k);
    close (pfd[0]); int st = 0; waitpid (pid, &st, 0);
    if (!r.empty () && r.back () == '\n') r.pop_back ();
    if (r.empty () || !WIFEXITED (st) || WEXITSTATUS (st) != 0) {
      std::string how = WIFSIGNALED (st) ? "signal " + std::to_string (WTERMSIG (st)) : "exit " + std::to_string (WEXITSTATUS (st));
      if (WIFEXITED (st) && WEXITSTATUS (st) == 9) return 9;
      r = "crash - " + how;
    }
    std::printf ("%zu %s\n", n, r.c_str ()); std::fflush (stdout);
  }
  return 0;
}
