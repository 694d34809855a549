#pragma once
#include "hx.h"
namespace oracle {
#include "oracle_tables.inc"
// table lookup that stays branch-free in the index; only the length is fixed per path
template <class L, class D> std::string padStr(const L& len, const D& dat, unsigned i) {
  const unsigned n = static_cast<unsigned>(symx_concretize(len[i]));
  std::string s(n, '\0');
  for (unsigned k = 0; k < n; k++) s[k] = static_cast<char>(dat[i][k]);
  return s;
}
inline std::string pty(unsigned p, bool rbds) { return rbds ? padStr(kPtyRbds_len, kPtyRbds_dat, p & 31) : padStr(kPty_len, kPty_dat, p & 31); }
inline std::string lang(unsigned c) { return c < 128 ? padStr(kLang_len, kLang_dat, c) : std::string(); }
inline std::string content(unsigned c) { return padStr(kCont_len, kCont_dat, c & 63); }
inline std::string appName(unsigned aid) {
  for (unsigned i = 0; i < sizeof kApp_id / sizeof *kApp_id; i++) if (kApp_id[i] == aid) return padStr(kApp_len, kApp_dat, i);
  return "(Unknown)";
}
inline std::string g0(unsigned c) { return utf8(kG0[c & 255]); }
inline const char* diKey(unsigned a) { static const char* const k[4] = {"dynamic_pty", "compressed", "artificial_head", "stereo"}; return k[a]; }
// fields common to every group
inline J basics(u16 pi, const G& g, bool rbds = false, unsigned t = 99, unsigned ver = 0) {
  J j;
  j["pi"] = hex0x(pi);
  if (g.has(2)) {
    const unsigned ty = t == 99 ? g.b[1] >> 12 : t, v = t == 99 ? (g.b[1] >> 11 & 1) : ver;
    j["group"] = std::to_string(ty) + (v ? "B" : "A");
    j["tp"] = (g.b[1] >> 10 & 1) != 0;
    j["prog_type"] = pty(g.b[1] >> 5 & 31, rbds);
  }
  return j;
}
}
