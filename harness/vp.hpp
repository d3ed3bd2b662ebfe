#pragma once
#include <cstddef>
#include <cstdint>
#include <string>
#include <string_view>
extern "C" {
char* vp_input (int idx, std::size_t* len);   // malloc'd, exact size
std::int64_t vp_param (int idx);
void vp_assume (bool c);
void vp_assert (bool c, char const* msg);
void vp_fail (char const* msg);
void vp_cover (char const* name);
void vp_known (char const* id);
void vp_observe (void const* p, std::size_t n);
std::uint64_t vp_concrete (std::uint64_t v);
}
inline std::string_view vp_in (int idx) { std::size_t n = 0; char* p = vp_input (idx, &n); return {p, n}; }
inline void vp_obs (std::string_view s) { std::uint64_t n = s.size (); vp_observe (&n, 8); vp_observe (s.data (), s.size ()); }
inline void vp_obs (bool b) { char c = b ? 1 : 0; vp_observe (&c, 1); }
