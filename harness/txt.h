// Reference for texts sent in addressed segments: latest byte per position, and how far an unbroken run from position 0 reaches.
#pragma once
#include "oracle.h"
namespace oracle {
inline std::string rt(std::string s) { while (!s.empty() && s.back() == ' ') s.pop_back(); return s; }
struct Txt {
  u8 c[128]; unsigned size, run = 0; int prev = 0;
  explicit Txt(unsigned n) : size(n) { for (auto& x : c) x = 0; }
  unsigned expected() const { for (unsigned i = 0; i < size; i++) if (c[i] == 0x0D) return i + 1; return size; }
  bool complete() const { return run >= expected(); }
  void set(unsigned p, u8 x) {
    if (p >= size) return;
    c[p] = x;
    if (p == 0) run = 1;
    else if (static_cast<int>(p) == prev + 1 && run == p) run = p + 1;
    prev = static_cast<int>(p);
  }
  void set2(unsigned p, u16 w) { set(p, static_cast<u8>(w >> 8)); set(p + 1, static_cast<u8>(w)); }
  void clear() { run = 0; }
  u8 at(unsigned i) const { return i < run && c[i] != 0x0D && c[i] != 0 ? c[i] : 0x20; }
  std::string bytes() const { std::string r; const unsigned n = expected(); for (unsigned i = 0; i < n; i++) r += static_cast<char>(at(i)); return r; }
  std::string str() const { std::string r; const unsigned n = expected(); for (unsigned i = 0; i < n; i++) r += g0(at(i)); return r; }
};
inline u8 letter(const char* n) { const u8 c = v8(n); symx_assume((c >= 'a') & (c <= 'z')); return c; }
inline u16 two(unsigned a, unsigned b) { return static_cast<u16>(a << 8 | b); }
}
