// P07: programme service (PS) name assembly.
// @bound histories of 0A/0B groups of one station: up to 4 in-order segments followed by n arbitrary groups (any segment, lost blocks, 0A or 0B, other traffic in between); every character code in every position
// @assume the transmitted name contains no carriage return (0x0D), which is not a displayable character
// @scenario s_hist quick=120 thorough=800 Q.n=6 T.n=8
// @scenario s_loss quick=120 thorough=800 Q.n=2 T.n=4
// @scenario s_chars quick=60
// @scenario s_mixed quick=60
// @scenario s_newstation quick=60
#include "oracle.h"
using namespace oracle;
namespace {
struct Ps {                       // reference: latest character per position, and length of the run from position 0
  u8 c[8] = {0, 0, 0, 0, 0, 0, 0, 0}; unsigned run = 0; int prev = 0;
  void set(unsigned p, u8 x) {
    c[p] = x;
    if (p == 0) run = 1;
    else if (static_cast<int>(p) == prev + 1 && run == p) run = p + 1;
    prev = static_cast<int>(p);
  }
  void seg(unsigned s, u16 w) { set(2 * s, static_cast<u8>(w >> 8)); set(2 * s + 1, static_cast<u8>(w)); }
  std::string str(unsigned n) const { std::string r; for (unsigned i = 0; i < 8; i++) r += i < n && c[i] != 0 ? g0(c[i]) : std::string(" "); return r; }
};
// a pair of characters whose display form is a single byte
u16 asciiPair(const char* n) {
  const u16 w = v16(n);
  symx_assume(((w >> 8) >= 'A') & ((w >> 8) <= 'Z') & ((w & 255) >= 'A') & ((w & 255) <= 'Z'));
  return w;
}
void step(Dec& d, Ps& ps, const G& g, bool partial) {
  const unsigned seg = g.b[1] & 3, ver = g.b[1] >> 11 & 1;
  auto v = d.feed(g);
  check(v.size() == 1, "one line per group");
  if (v.size() != 1) return;
  if (g.has(3) && g.has(4)) ps.seg(seg, g.b[3]);
  J e = basics(0x6201, g, false, 0, ver);
  e["di"][diKey(seg)] = (g.b[1] >> 2 & 1) != 0;
  e["ta"] = (g.b[1] >> 4 & 1) != 0;
  e["is_music"] = (g.b[1] >> 3 & 1) != 0;
  if (g.has(3) && g.has(4)) {
    if (ps.run >= 8) e["ps"] = ps.str(8);
    else if (partial) e["partial_ps"] = ps.str(ps.run);
  }
  expectJson(v[0], e, "the PS name is shown exactly when all four segments arrived in order, with the latest characters");
}
const u16 kName[4] = {0x4142, 0x4344, 0x4546, 0x4748};
}
SCENARIO(s_hist) {
  Options o = baseOptions();
  Dec d(o, 0x6201); Ps ps;
  const unsigned k = pick("prefix", 5), n = static_cast<unsigned>(symx_param("n", 4));
  for (unsigned i = 0; i < k; i++) step(d, ps, G(0x6201, blk2(0, 0, 0, 1, 8 | i), 0xCDCD, kName[i]), false);
  char nm[8] = "b4_0";
  char sm[8] = "sg_0";
  for (unsigned i = 0; i < n; i++) {
    nm[3] = sm[3] = static_cast<char>('0' + i);
    step(d, ps, G(0x6201, blk2(0, 0, 0, 1, 8 | pick(sm, 4)), 0xCDCD, asciiPair(nm)), false);
  }
  symx_reached("end");
}
SCENARIO(s_loss) {
  Options o = baseOptions();
  o.show_partial = true;
  Dec d(o, 0x6201); Ps ps;
  const unsigned k = pick("prefix", 5), n = static_cast<unsigned>(symx_param("n", 2));
  static const unsigned masks[] = {15, 7, 11, 14};
  const unsigned lost2 = pick("lost2", 2);
  char nm[8] = "b4_0", sm[8] = "sg_0", mm[8] = "mk_0";
  for (unsigned i = 0; i < k; i++) step(d, ps, G(0x6201, blk2(0, 1, 0, 1, i), 0x6201, kName[i]), true);
  for (unsigned i = 0; i < n; i++) {
    nm[3] = sm[3] = mm[3] = static_cast<char>('0' + i);
    d.feed(G(0x6201, blk2(1, 1, 0, 0, 0), 0x6201, 0));   // at most one group in a row without PI
    const unsigned s = pick(sm, 4), m = masks[pick(mm, 4)];
    step(d, ps, G(0x6201, blk2(0, 1, 0, 1, s), 0x6201, asciiPair(nm), m), true);
    if (lost2) {   // block 2 lost: the segment is unknown, nothing may change
      auto v = d.feed(G(0x6201, 0, 0x6201, 0x5859, 13));
      check(v.size() == 1, "one line");
      if (v.size() == 1) expectLacks(v[0], {"ps", "partial_ps"}, "no PS from a group of unknown type");
    }
  }
  symx_reached("end");
}
// every character code, in every position
SCENARIO(s_chars) {
  Options o = baseOptions();
  o.show_partial = pick("partial", 2) != 0;
  Dec d(o, 0x6201); Ps ps;
  const unsigned pos = pick("pos", 8);
  const u8 x = v8("char");
  symx_assume(x != 0x0D);
  for (unsigned i = 0; i < 4; i++) {
    u16 w = kName[i];
    if (pos / 2 == i) w = pos & 1 ? static_cast<u16>((w & 0xFF00) | x) : static_cast<u16>((w & 255) | x << 8);
    step(d, ps, G(0x6201, blk2(0, 0, 0, 1, i), 0xCDCD, w), o.show_partial);
  }
  symx_reached("end");
}
// other groups in between (including those that carry their own texts) do not disturb the name
SCENARIO(s_mixed) {
  Options o = baseOptions();
  Dec d(o, 0x6201); Ps ps;
  static const unsigned tys[] = {2, 4, 5, 10, 14, 30, 31, 8, 28};   // 5-bit type codes: 1A 2A 2B 5A 7A 15A 15B 4A 14A
  const unsigned t = tys[pick("type", 9)], at = pick("at", 4);
  for (unsigned i = 0; i < 4; i++) {
    if (i == at) d.feed(G(0x6201, static_cast<u16>(t << 11 | (t == 8 ? 1u : vb("low5", 5))), 0x4142, 0x4344));
    step(d, ps, G(0x6201, blk2(0, i & 1, 0, 1, i), i & 1 ? 0x6201 : 0xCDCD, kName[i]), false);
  }
  symx_reached("end");
}
// a name is never continued by another station
SCENARIO(s_newstation) {
  Options o = baseOptions();
  Dec d(o, 0x6201); Ps ps;
  const unsigned k = pick("prefix", 4) + 1;
  for (unsigned i = 0; i < k; i++) step(d, ps, G(0x6201, blk2(0, 0, 0, 1, i), 0xCDCD, kName[i]), false);
  const u16 pi2 = v16("pi2");
  symx_assume((pi2 != 0x6201) & (pi2 != 0));
  G id(pi2, blk2(1, 1, 0, 0, 0), pi2, 0, 15);
  for (unsigned i = 0; i < 3; i++) d.feed(id);
  Ps ps2;
  const unsigned s0 = pick("s0", 4), n = 4;
  for (unsigned i = 0; i < n; i++) {
    const unsigned s = (s0 + i) & 3;
    G g(pi2, blk2(0, 0, 0, 1, s), 0xCDCD, kName[s]);
    auto v = d.feed(g);
    check(v.size() == 1, "one line per group");
    if (v.size() != 1) return;
    ps2.seg(s, g.b[3]);
    J e; e["ps"] = ps2.str(8);
    if (ps2.run >= 8) expectHas(v[0], e, "the new station's name"); else expectLacks(v[0], {"ps"}, "no name of the new station until it sent all of it");
  }
  symx_reached("end");
}
