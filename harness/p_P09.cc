// P09: alternative frequency lists.
// @bound any code after a count; lists of every announced length 1..25; method B lists of up to 3 (thorough 4) pairs with arbitrary codes; histories of 2 (thorough 3) groups of arbitrary kinds after a list start; lost blocks
// @scenario s_code quick=60
// @scenario s_length quick=60
// @scenario s_methodB quick=120 thorough=500 Q.n=3 T.n=4
// @scenario s_hist quick=120 thorough=800 Q.n=2 T.n=3
// @scenario s_loss quick=60
#include "af.h"
using namespace oracle;
namespace {
const u16 kPi = 0x6201;
u16 two(unsigned a, unsigned b) { return static_cast<u16>(a << 8 | b); }
void step(Dec& d, Af& af, u16 codes, bool lost3 = false) {
  G g(kPi, blk2(0, 0, 0, 1, 3), codes, 0x4142, lost3 ? 11 : 15);
  auto v = d.feed(g);
  check(v.size() == 1, "one line per group");
  if (v.size() != 1) return;
  J e = basics(kPi, g, false, 0, 0);
  e["di"]["stereo"] = false; e["ta"] = false; e["is_music"] = false;
  if (lost3) { if (af.methodB()) af.clear(); }
  else {
    af.code(static_cast<u8>(codes >> 8)); af.code(static_cast<u8>(codes));
    if (af.complete()) {
      if (af.methodB()) { J b = af.listB(); if (!b.is_null()) e["alt_frequencies_b"] = b; }
      else e["alt_frequencies_a"] = af.listA();
      af.clear();
    } else if (d.opt.show_partial && af.got > 0) e["partial_alt_frequencies"] = af.listA();
    if (d.opt.show_partial) e["partial_ps"] = "        ";
  }
  expectJson(v[0], e, "alternative frequencies are reported exactly as announced and sent");
}
u8 fm(const char* n) { const u8 c = v8(n); symx_assume((c >= 1) & (c <= 204)); return c; }
}
// any single code: frequency, filler, special or invalid
SCENARIO(s_code) {
  Options o = baseOptions();
  o.show_partial = pick("partial", 2) != 0;
  Dec d(o, kPi); Af af;
  const unsigned k = pick("count", 3);
  const bool lf = pick("lf", 2) != 0;
  if (lf) { step(d, af, two(225 + k, 205)); step(d, af, two(250, v8("code"))); step(d, af, two(10, 20)); }
  else { step(d, af, two(225 + k, v8("code"))); step(d, af, two(10, 20)); }
  symx_reached("end");
}
// every announced length
SCENARIO(s_length) {
  Options o = baseOptions();
  o.show_partial = pick("partial", 2) != 0;
  Dec d(o, kPi); Af af;
  const unsigned n = 1 + pick("n", 25), filler = pick("filler", 2), at = pick("at", 2) ? n / 2 : n - 1;
  const u8 x = fm("x");
  auto c = [&](unsigned i) -> u8 { return i == at ? x : static_cast<u8>(100 + 3 * i); };
  step(d, af, two(224 + n, filler ? 205 : c(0)));
  for (unsigned i = filler ? 0 : 1; i < n; i += 2) step(d, af, two(c(i), i + 1 < n ? c(i + 1) : 205));
  step(d, af, two(224 + 2, 50)); step(d, af, two(60, 205));
  symx_reached("end");
}
// method B: pairs with the tuned frequency
SCENARIO(s_methodB) {
  Options o = baseOptions();
  Dec d(o, kPi); Af af;
  const unsigned pairs = 1 + pick("pairs", static_cast<unsigned>(symx_param("n", 3)));
  const u8 t = fm("tuned");
  step(d, af, two(224 + 2 * pairs + 1, t));
  for (unsigned i = 0; i < pairs; i++) { const u8 a = fm("alt"); const bool first = pick("order", 2) != 0; step(d, af, first ? two(t, a) : two(a, t)); }
  symx_reached("end");
}
// arbitrary continuation of a list
SCENARIO(s_hist) {
  Options o = baseOptions();
  o.show_partial = pick("partial", 2) != 0;
  Dec d(o, kPi); Af af;
  const unsigned n = static_cast<unsigned>(symx_param("n", 2));
  auto any = [&]() -> u8 {
    switch (pick("kind", 7)) {
      case 0: return fm("f");
      case 1: return 205;
      case 2: return static_cast<u8>(224 + 2);
      case 3: return static_cast<u8>(224 + 3);
      case 4: return 250;
      case 5: return 20;
      default: { const u8 c = v8("bad"); symx_assume((c == 0) | ((c >= 206) & (c <= 223)) | (c >= 251)); return c; }
    }
  };
  step(d, af, two(224 + 1 + pick("count", 5), pick("second", 2) ? 20 : 205));
  for (unsigned i = 0; i < n; i++) { const u8 a = any(), b = any(); step(d, af, two(a, b)); }
  symx_reached("end");
}
// a lost block 3: a method B list is given up, other lists continue
SCENARIO(s_loss) {
  Options o = baseOptions();
  Dec d(o, kPi); Af af;
  const unsigned n = 4 + pick("n", 3), at = pick("at", 4);
  const u8 x = fm("x");
  const unsigned b = pick("b", 2);
  step(d, af, two(224 + n, 20));
  for (unsigned i = 0; i < 4; i++) {
    if (i == at) step(d, af, 0, true);
    step(d, af, b ? two(20, 40 + i) : two(i == 1 ? x : 60 + i, 80 + i));
  }
  symx_reached("end");
}
