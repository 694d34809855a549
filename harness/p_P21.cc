// P21: RBDS call signs.
// @bound every PI code from 0x0000 to 0xCFFF and 0xF000 to 0xFFFF, in one group
// @assume three-letter and linked station names are compared with a table taken from the standard
// @scenario s_four quick=120
// @scenario s_zero quick=120
// @scenario s_three quick=60
// @scenario s_linked quick=60
// @scenario s_none quick=60
// @scenario s_rds quick=60
#include "oracle.h"
using namespace oracle;
namespace {
const struct { u16 pi; const char* name; } kSigns[] = {
#include "callsigns.inc"
};
const unsigned kNumThree = sizeof kSigns / sizeof kSigns[0];
J show(u16 pi, bool rbds) {
  Options o = baseOptions();
  o.rbds = rbds;
  Dec d(o, pi);
  return d.one(G(pi, blk2(8, 0, 0, 0, 0), 0, 0), "one line per group");
}
std::string sign(unsigned canon) {       // NRSC-4 annex D: K and W followed by three letters in alphabetical order
  const bool k = canon < 21672;
  const unsigned n = k ? canon - 4096 : canon - 21672;
  std::string s(4, 0);
  s[0] = k ? 'K' : 'W';
  s[1] = static_cast<char>('A' + n / 676); s[2] = static_cast<char>('A' + n / 26 % 26); s[3] = static_cast<char>('A' + n % 26);
  return s;
}
void expectSign(u16 sent, const std::string& e, const char* m) {
  const J j = show(sent, true);
  const bool uncertain = static_cast<bool>(symx_concretize((sent & 0xF000) == 0x1000));
  J x;
  x["pi"] = hex0x(sent);
  x[uncertain ? "callsign_uncertain" : "callsign"] = e;
  expectHas(j, x, m);
  if (uncertain) expectLacks(j, {"callsign"}, m); else expectLacks(j, {"callsign_uncertain"}, m);
  symx_reached("end");
}
void expectNone(u16 sent, bool rbds) { expectLacks(show(sent, rbds), {"callsign", "callsign_uncertain"}, "no call sign where the PI has none"); symx_reached("end"); }
}
// four letters, as assigned: canonical code without zero digits that must be replaced
SCENARIO(s_four) {
  const u16 pi = v16("pi");
  const unsigned part = pick("part", 2);
  if (part) { symx_assume(pi >= 21672); symx_assume(pi <= 39247); } else { symx_assume(pi >= 4096); symx_assume(pi < 21672); }
  expectSign(pi, sign(pi), "the call sign of a PI in the K and W ranges");
}
SCENARIO(s_zero) {
  const unsigned p1 = 1 + pick("p1", 9), kind = pick("kind", 3);
  unsigned canon, sent;
  if (kind == 0) { const unsigned low = v8("low"); symx_assume(low != 0); canon = p1 << 12 | low; sent = 0xA000 | p1 << 8 | low; }
  else if (kind == 1) { const unsigned p2 = vb("p2", 4); symx_assume(p2 != 0); canon = p1 << 12 | p2 << 8; sent = 0xAF00 | p1 << 4 | p2; }
  else { canon = p1 << 12; sent = 0xAFA0 | p1; }
  if (p1 == 9) symx_assume(canon <= 39247);
  const unsigned k = static_cast<unsigned>(symx_concretize(canon < 21672));
  (void)k;
  expectSign(static_cast<u16>(sent), sign(canon), "call signs whose PI would contain zero digits");
}
SCENARIO(s_three) {
  const auto& t = kSigns[pick("entry", kNumThree)];
  expectSign(t.pi, t.name, "three-letter call signs");
}
SCENARIO(s_linked) {
  static const char* const names[] = {"NPR-1", "CBC English - Radio One", "CBC English - Radio Two", "CBC French => Radio-Canada - Premi\xC3\xA8re Cha\xC3\xAEne", "CBC French => Radio-Canada - Espace Musique", "CBC", "CBC", "CBC", "CBC", "NPR-2", "NPR-3", "NPR-4", "NPR-5", "NPR-6"};
  const unsigned i = pick("entry", 14), area = vb("area", 4);
  expectSign(static_cast<u16>(0xB001 + i + (area << 8)), names[i], "nationally linked stations");
}
SCENARIO(s_none) {
  const u16 pi = v16("pi");
  const unsigned r = pick("range", 4);
  if (r == 0) { symx_assume(pi < 0x1000); symx_assume(pi != 0); }
  else if (r == 1) {
    symx_assume(pi >= 0x9950); symx_assume(pi <= 0x9FFF);
    for (unsigned i = 0; i < kNumThree; i++) symx_assume(pi != kSigns[i].pi);
  } else if (r == 2) symx_assume((pi >> 12 == 0xC) | (pi >> 12 == 0xF));
  else { symx_assume(pi >> 12 == 0xB); symx_assume(((pi & 0xFF) == 0) | ((pi & 0xFF) > 14)); }
  expectNone(pi, true);
}
SCENARIO(s_rds) {
  const u16 pi = v16("pi");
  symx_assume(pi != 0);
  expectNone(pi, false);
}
