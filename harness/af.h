// Reference for alternative frequency lists (IEC 62106 3.2.1.6)
#pragma once
#include "oracle.h"
namespace oracle {
struct Af {
  int f[25]; unsigned want = 0, got = 0; bool lf = false;
  Af() { for (auto& x : f) x = 0; }
  void clear() { want = got = 0; }
  void code(u8 c) {
    const bool isLf = lf;
    lf = false;
    const bool valid = isLf ? (c >= 1) & (c <= 135) : (c >= 1) & (c <= 204);
    if (valid && want > 0) {
      if (got < want) { f[got++] = isLf ? (c <= 15 ? 144 + 9 * c : 387 + 9 * c) : 87500 + 100 * c; }
      else clear();
    } else if (c == 205 || c == 224) {
    } else if (c >= 225 && c <= 249) { want = static_cast<unsigned>(symx_concretize(c - 224u)); got = 0; }
    else if (c == 250) lf = true;
    else clear();
  }
  bool complete() const { return want > 0 && got == want; }
  // at least one pair seen, and every pair so far contains the first (tuned) frequency
  bool methodB() const {
    if (want % 2 != 1 || got < 3) return false;
    for (unsigned i = 1; i + 1 < got; i += 2) if ((f[i] != f[0]) & (f[i + 1] != f[0])) return false;
    return true;
  }
  J listA() const { J j = J::array(); for (unsigned i = 0; i < got; i++) j.push_back(f[i]); return j; }
  // method B, or null when the same alternative is repeated
  J listB() const {
    J j; j["tuned_frequency"] = f[0];
    int s[12], r[12]; unsigned ns = 0, nr = 0;
    for (unsigned i = 1; i + 1 < got; i += 2) {
      const int other = f[i] == f[0] ? f[i + 1] : f[i];
      if (f[i] < f[i + 1]) s[ns++] = other; else r[nr++] = other;
    }
    for (unsigned a = 0; a < ns; a++) for (unsigned b = 0; b < a; b++) if (s[a] == s[b]) return J();
    for (unsigned a = 0; a < nr; a++) for (unsigned b = 0; b < a; b++) if (r[a] == r[b]) return J();
    for (unsigned a = 0; a < ns; a++) j["same_programme"].push_back(s[a]);
    for (unsigned a = 0; a < nr; a++) j["regional_variants"].push_back(r[a]);
    return j;
  }
};
}
