// Parts of the libstdc++ runtime that are not templates, for the symbolic build only: the linked lists, trees and hash
// tables of the library as its ABI documents them. (The native build uses the real ones.)
#include <cstddef>
#include <cstdint>
#include <pthread.h>
#include <functional>
#include <list>
#include <map>
#include <unordered_map>

namespace std {
namespace __detail {
void _List_node_base::_M_hook (_List_node_base* const at) noexcept { _M_next = at; _M_prev = at->_M_prev; at->_M_prev->_M_next = this; at->_M_prev = this; }
void _List_node_base::_M_unhook () noexcept { _List_node_base* const n = _M_next; _List_node_base* const p = _M_prev; p->_M_next = n; n->_M_prev = p; }
void _List_node_base::_M_transfer (_List_node_base* const f, _List_node_base* const l) noexcept {
  if (this == l) return;
  l->_M_prev->_M_next = this; f->_M_prev->_M_next = l; this->_M_prev->_M_next = f;
  auto* const t = this->_M_prev; this->_M_prev = l->_M_prev; l->_M_prev = f->_M_prev; f->_M_prev = t;
}
void _List_node_base::_M_reverse () noexcept {
  auto* t = this;
  do { auto* n = t->_M_next; t->_M_next = t->_M_prev; t->_M_prev = n; t = t->_M_prev; } while (t != this);
}
void _List_node_base::swap (_List_node_base& x, _List_node_base& y) noexcept {
  bool const ex = x._M_next == &x, ey = y._M_next == &y;
  auto take = [] (_List_node_base& to, _List_node_base& from) { to._M_next = from._M_next; to._M_prev = from._M_prev; to._M_next->_M_prev = &to; to._M_prev->_M_next = &to; };
  if (ex && ey) return;
  if (ex) { take (x, y); y._M_next = y._M_prev = &y; return; }
  if (ey) { take (y, x); x._M_next = x._M_prev = &x; return; }
  auto* a = x._M_next; auto* b = x._M_prev;
  take (x, y); y._M_next = a; y._M_prev = b; a->_M_prev = &y; b->_M_next = &y;
}
size_t _Prime_rehash_policy::_M_next_bkt (size_t n) const {
  // The table's load factor is 1 unless max_load_factor() was called, which the library has no reason to do.
  auto prime = [] (size_t k) { for (size_t d = 2; d * d <= k; ++d) if (k % d == 0) return false; return k >= 2; };
  while (!prime (n)) ++n;
  _M_next_resize = n;
  return n;
}
pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash (size_t bkt, size_t elt, size_t ins) const {
  if (elt + ins <= _M_next_resize) return {false, 0};
  size_t want = elt + ins + 1 > 13 ? elt + ins + 1 : 13;
  if (want <= bkt) { _M_next_resize = bkt; return {false, 0}; }
  return {true, _M_next_bkt (want > bkt * 2 ? want : bkt * 2)};
}
}  // namespace __detail
size_t _Hash_bytes (const void* p, size_t n, size_t seed) {
  size_t h = seed;
  for (size_t i = 0; i < n; ++i) h = h * 31 + static_cast<unsigned char const*> (p)[i];
  return h;
}
// An unbalanced tree has the order a balanced one has.
void _Rb_tree_insert_and_rebalance (const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& h) noexcept {
  x->_M_parent = p; x->_M_left = x->_M_right = nullptr; x->_M_color = _S_black;
  if (left) {
    p->_M_left = x;
    if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x;
  } else {
    p->_M_right = x;
    if (p == h._M_right) h._M_right = x;
  }
}
_Rb_tree_node_base* _Rb_tree_increment (_Rb_tree_node_base* x) noexcept {
  if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; return x; }
  auto* y = x->_M_parent;
  while (x == y->_M_right) { x = y; y = y->_M_parent; }
  return x->_M_right != y ? y : x;
}
const _Rb_tree_node_base* _Rb_tree_increment (const _Rb_tree_node_base* x) noexcept { return _Rb_tree_increment (const_cast<_Rb_tree_node_base*> (x)); }
_Rb_tree_node_base* _Rb_tree_decrement (_Rb_tree_node_base* x) noexcept {
  if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) return x->_M_right;  // the header
  if (x->_M_left) { x = x->_M_left; while (x->_M_right) x = x->_M_right; return x; }
  auto* y = x->_M_parent;
  while (x == y->_M_left) { x = y; y = y->_M_parent; }
  return y;
}
const _Rb_tree_node_base* _Rb_tree_decrement (const _Rb_tree_node_base* x) noexcept { return _Rb_tree_decrement (const_cast<_Rb_tree_node_base*> (x)); }
_Rb_tree_node_base* _Rb_tree_rebalance_for_erase (_Rb_tree_node_base* const z, _Rb_tree_node_base& h) noexcept {
  auto replace = [&h] (_Rb_tree_node_base* from, _Rb_tree_node_base* to) {
    if (h._M_parent == from) h._M_parent = to;
    else if (from->_M_parent->_M_left == from) from->_M_parent->_M_left = to;
    else from->_M_parent->_M_right = to;
    if (to) to->_M_parent = from->_M_parent;
  };
  if (h._M_left == z) { auto* n = z->_M_right; if (n) { while (n->_M_left) n = n->_M_left; h._M_left = n; } else h._M_left = z->_M_parent; }
  if (h._M_right == z) { auto* n = z->_M_left; if (n) { while (n->_M_right) n = n->_M_right; h._M_right = n; } else h._M_right = z->_M_parent; }
  if (!z->_M_left) replace (z, z->_M_right);
  else if (!z->_M_right) replace (z, z->_M_left);
  else {
    auto* y = z->_M_right;
    while (y->_M_left) y = y->_M_left;
    if (y->_M_parent != z) { replace (y, y->_M_right); y->_M_right = z->_M_right; y->_M_right->_M_parent = y; }
    replace (z, y);
    y->_M_left = z->_M_left; y->_M_left->_M_parent = y;
  }
  return z;
}
}  // namespace std
// std::filesystem::path as far as appending needs it: its text, with append as [fs.path.append] defines it for POSIX. The
// component list is left empty; nothing that is encoded reads it.
#include <filesystem>
namespace std::filesystem::__cxx11 {
path::_List::_List () : _M_impl (nullptr) {}
path::_List::_List (const _List&) : _M_impl (nullptr) {}
path::_List& path::_List::operator= (const _List&) { return *this; }
void path::_List::_Impl_deleter::operator() (_Impl*) const noexcept {}
void path::_M_split_cmpts () {}
path& path::operator/= (const path& p) { _M_append (p._M_pathname); return *this; }
void path::_M_append (basic_string_view<value_type> s) {
  if (!s.empty () && s.front () == '/') { _M_pathname.assign (s.data (), s.size ()); return; }
  if (!_M_pathname.empty () && _M_pathname.back () != '/') _M_pathname.push_back ('/');
  _M_pathname.append (s.data (), s.size ());
}
void path::_M_concat (basic_string_view<value_type> s) { _M_pathname.append (s.data (), s.size ()); }
path& path::operator+= (const path& p) { _M_concat (p._M_pathname); return *this; }
// the parts of a POSIX path, of its text
static size_t relative_at (basic_string<char> const& s) { size_t k = 0; while (k < s.size () && s[k] == '/') ++k; return k; }
static size_t filename_at (basic_string<char> const& s) { size_t k = s.size (); while (k > 0 && s[k - 1] != '/') --k; return k; }
path path::root_name () const { return {}; }
path path::root_directory () const { return relative_at (_M_pathname) > 0 ? path (string_type (1, '/')) : path (); }
path path::root_path () const { return root_directory (); }
path path::relative_path () const { return path (_M_pathname.substr (relative_at (_M_pathname))); }
path path::parent_path () const {
  if (!has_relative_path ()) return *this;
  size_t k = filename_at (_M_pathname), r = relative_at (_M_pathname);
  while (k > r && _M_pathname[k - 1] == '/') --k;
  return path (_M_pathname.substr (0, k));
}
bool path::has_root_name () const noexcept { return false; }
bool path::has_root_directory () const noexcept { return relative_at (_M_pathname) > 0; }
bool path::has_root_path () const noexcept { return has_root_directory (); }
bool path::has_relative_path () const noexcept { return relative_at (_M_pathname) < _M_pathname.size (); }
bool path::has_parent_path () const noexcept { return has_root_directory () || filename_at (_M_pathname) > 0; }
bool path::has_filename () const noexcept { return filename_at (_M_pathname) < _M_pathname.size (); }
path& path::remove_filename () { _M_pathname.erase (filename_at (_M_pathname)); return *this; }
path& path::replace_filename (const path& p) { remove_filename (); return *this /= p; }
path& path::operator= (const path& p) { _M_pathname = p._M_pathname; return *this; }
}  // namespace std::filesystem::__cxx11

// ---- the C library's text functions, as C defines them ("C" locale)
extern "C" {
static int errno_cell;
int* __errno_location () { return &errno_cell; }
size_t strlen (char const* s) { size_t n = 0; while (s[n] != 0) ++n; return n; }
size_t strnlen (char const* s, size_t m) { size_t n = 0; while (n < m && s[n] != 0) ++n; return n; }
char* strchr (char const* s, int c) {
  for (;; ++s) {
    if (*s == static_cast<char> (c)) return const_cast<char*> (s);
    if (*s == 0) return nullptr;
  }
}
char* strrchr (char const* s, int c) {
  char const* r = nullptr;
  for (;; ++s) {
    if (*s == static_cast<char> (c)) r = s;
    if (*s == 0) return const_cast<char*> (r);
  }
}
void* memrchr (void const* p, int c, size_t n) {
  auto const* s = static_cast<unsigned char const*> (p);
  while (n-- > 0) if (s[n] == static_cast<unsigned char> (c)) return const_cast<unsigned char*> (s + n);
  return nullptr;
}
int strncmp (char const* a, char const* b, size_t n) {
  for (; n > 0; --n, ++a, ++b) {
    auto const x = static_cast<unsigned char> (*a), y = static_cast<unsigned char> (*b);
    if (x != y) return x < y ? -1 : 1;
    if (x == 0) return 0;
  }
  return 0;
}
int strcmp (char const* a, char const* b) { return strncmp (a, b, static_cast<size_t> (-1)); }
static int lower (char c) { return c >= 'A' && c <= 'Z' ? c + 32 : static_cast<unsigned char> (c); }
int strncasecmp (char const* a, char const* b, size_t n) {
  for (; n > 0; --n, ++a, ++b) {
    int const x = lower (*a), y = lower (*b);
    if (x != y) return x - y;
    if (x == 0) return 0;
  }
  return 0;
}
int strcasecmp (char const* a, char const* b) { return strncasecmp (a, b, static_cast<size_t> (-1)); }
static bool among (char c, char const* set) { for (; *set != 0; ++set) if (*set == c) return true; return false; }
size_t strspn (char const* s, char const* set) { size_t n = 0; while (s[n] != 0 && among (s[n], set)) ++n; return n; }
size_t strcspn (char const* s, char const* set) { size_t n = 0; while (s[n] != 0 && !among (s[n], set)) ++n; return n; }
char* strpbrk (char const* s, char const* set) { s += strcspn (s, set); return *s != 0 ? const_cast<char*> (s) : nullptr; }
char* strstr (char const* s, char const* t) {
  size_t const n = strlen (t);
  for (;; ++s) {
    if (strncmp (s, t, n) == 0) return const_cast<char*> (s);
    if (*s == 0) return nullptr;
  }
}
char* strcpy (char* d, char const* s) { char* r = d; while ((*d++ = *s++) != 0) {} return r; }
char* strncpy (char* d, char const* s, size_t n) { size_t k = 0; for (; k < n && s[k] != 0; ++k) d[k] = s[k]; for (; k < n; ++k) d[k] = 0; return d; }
char* strcat (char* d, char const* s) { strcpy (d + strlen (d), s); return d; }
static unsigned long parse (char const* s, char** end, int base, bool sign, unsigned long max, unsigned long min) {
  char const* const begin = s;
  while (*s == ' ' || (*s >= 9 && *s <= 13)) ++s;
  bool const neg = *s == '-';
  if (*s == '-' || *s == '+') ++s;
  auto digit = [] (char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'z' ? c - 'a' + 10 : c >= 'A' && c <= 'Z' ? c - 'A' + 10 : 99; };
  if ((base == 0 || base == 16) && s[0] == '0' && (s[1] == 'x' || s[1] == 'X') && digit (s[2]) < 16) { s += 2; base = 16; }
  else if (base == 0) base = *s == '0' ? 8 : 10;
  bool any = false, over = false;
  unsigned long v = 0;
  for (; digit (*s) < base; ++s) {
    any = true;
    unsigned long w;
    if (__builtin_mul_overflow (v, static_cast<unsigned long> (base), &w) || __builtin_add_overflow (w, static_cast<unsigned long> (digit (*s)), &w)) over = true; else v = w;
  }
  if (end) *end = const_cast<char*> (any ? s : begin);
  unsigned long const limit = neg && sign ? min : max;
  if (over || v > limit) { errno_cell = 34; return neg && sign ? 0 - limit : limit; }
  return neg ? 0 - v : v;
}
constexpr unsigned long LMAX = ~0UL >> 1;
unsigned long strtoul (char const* s, char** e, int b) { return parse (s, e, b, false, ~0UL, 0); }
unsigned long long strtoull (char const* s, char** e, int b) { return parse (s, e, b, false, ~0UL, 0); }
long strtol (char const* s, char** e, int b) { return static_cast<long> (parse (s, e, b, true, LMAX, LMAX + 1)); }
long long strtoll (char const* s, char** e, int b) { return strtol (s, e, b); }
// one thread
int pthread_mutex_lock (pthread_mutex_t*) noexcept { return 0; }
int pthread_mutex_unlock (pthread_mutex_t*) noexcept { return 0; }
int __cxa_thread_atexit (void (*) (void*), void*, void*) { return 0; }
static int print (char* d, size_t m, char const* f, __builtin_va_list ap) {
  size_t n = 0;
  auto put = [&] (char c) { if (n + 1 < m) d[n] = c; ++n; };
  for (; *f != 0; ++f) {
    if (*f != '%') { put (*f); continue; }
    ++f;
    bool zero = false, left = false;
    for (; *f == '0' || *f == '-'; ++f) (*f == '0' ? zero : left) = true;
    size_t width = 0;
    for (; *f >= '0' && *f <= '9'; ++f) width = width * 10 + static_cast<size_t> (*f - '0');
    long prec = -1;
    if (*f == '.') {
      ++f; prec = 0;
      if (*f == '*') { prec = __builtin_va_arg (ap, int); ++f; }
      for (; *f >= '0' && *f <= '9'; ++f) prec = prec * 10 + (*f - '0');
    }
    int longs = 0;
    for (; *f == 'l' || *f == 'z' || *f == 'h'; ++f) longs += *f == 'h' ? 0 : 1;
    if (*f == '%') { put ('%'); continue; }
    char buf[24];
    char const* t = buf;
    size_t k = 0;
    if (*f == 'c') { buf[k++] = static_cast<char> (__builtin_va_arg (ap, int)); }
    else if (*f == 's') { t = __builtin_va_arg (ap, char const*); while ((prec < 0 || k < static_cast<size_t> (prec)) && t[k] != 0) ++k; }
    else {
      bool neg = false;
      unsigned long v;
      if (*f == 'd' || *f == 'i') { long const x = longs ? __builtin_va_arg (ap, long) : __builtin_va_arg (ap, int); neg = x < 0; v = neg ? 0 - static_cast<unsigned long> (x) : static_cast<unsigned long> (x); }
      else v = longs ? __builtin_va_arg (ap, unsigned long) : __builtin_va_arg (ap, unsigned);
      unsigned long const base = *f == 'x' || *f == 'X' ? 16 : *f == 'o' ? 8 : 10;
      char const ten = *f == 'X' ? 'A' : 'a';
      char* e = buf + 24;
      do { auto const g = static_cast<char> (v % base); *--e = static_cast<char> (g < 10 ? '0' + g : ten + g - 10); v /= base; ++k; } while (v != 0);
      while (prec >= 0 && k < static_cast<size_t> (prec) && k < 20) { *--e = '0'; ++k; }
      if (neg && zero) { put ('-'); if (width > 0) --width; }
      if (neg && !zero) { *--e = '-'; ++k; }
      t = e;
    }
    for (size_t x = k; !left && x < width; ++x) put (zero ? '0' : ' ');
    for (size_t x = 0; x < k; ++x) put (t[x]);
    for (size_t x = k; left && x < width; ++x) put (' ');
  }
  if (m > 0) d[n < m ? n : m - 1] = 0;
  return static_cast<int> (n);
}
int vsnprintf (char* d, size_t m, char const* f, __builtin_va_list ap) { return print (d, m, f, ap); }
int snprintf (char* d, size_t m, char const* f, ...) { __builtin_va_list ap; __builtin_va_start (ap, f); int const r = print (d, m, f, ap); __builtin_va_end (ap); return r; }
int sprintf (char* d, char const* f, ...) { __builtin_va_list ap; __builtin_va_start (ap, f); int const r = print (d, static_cast<size_t> (-1), f, ap); __builtin_va_end (ap); return r; }
}
