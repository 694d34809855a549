// P04: station identity (PI confirmation) and a clean start for every new station.
// @bound histories of n groups, each with one of three arbitrary distinct PI codes or none; then every kind of collected station data probed after a change of station
// @assume PI codes are not 0x0000 (not a valid PI)
// @scenario s_hist quick=120 thorough=800 Q.n=8 T.n=10
// @scenario s_nopi quick=120 thorough=500 Q.n=6 T.n=8
// @scenario s_cprime quick=60
// @scenario s_clear quick=120
// @scenario s_reset quick=60
#include "oracle.h"
using namespace oracle;
SCENARIO(s_hist) {
  Options o = baseOptions();
  Dec d(o);
  u16 c[3] = {v16("pa"), v16("pb"), v16("pc")};
  symx_assume((c[0] != c[1]) & (c[1] != c[2]) & (c[0] != c[2]) & (c[0] != 0) & (c[1] != 0) & (c[2] != 0));
  int conf = -1, p1 = -1, p2 = -1, shown = -1; bool prev = false;
  const unsigned n = static_cast<unsigned>(symx_param("n", 7));
  unsigned lastSeg = 9, run = 0;
  for (unsigned i = 0; i < n; i++) {
    const int k = static_cast<int>(pick("which", 3));
    bool fresh = false;
    if (prev && p1 == p2 && k == p1) { fresh = k != conf; conf = k; }
    if (prev && k != conf && p1 != conf && k != p1) { prev = false; conf = p1 = p2 = -1; } else prev = true;
    p2 = p1; p1 = k;
    if (fresh) { shown = k; run = 0; lastSeg = 9; }
    const unsigned seg = i & 3;
    G g(c[k], blk2(0, 1, 0, 1, seg), c[k], 0x4142);
    auto v = d.feed(g);
    if (shown < 0) { check(v.empty(), "nothing is reported before a PI was received three times in a row"); continue; }
    check(v.size() == 1, "one line per group");
    if (v.size() != 1) return;
    if (seg == 0) run = 1; else if (run == seg && lastSeg + 1 == seg) run = seg + 1;
    lastSeg = seg;
    J e; e["pi"] = hex0x(c[shown]);
    if (run >= 4) e["ps"] = "ABABABAB";
    expectHas(v[0], e, "the PI shown is the confirmed one");
    if (run < 4) expectLacks(v[0], {"ps"}, "a new station starts without the old one's data");
  }
  symx_reached("end");
}
// groups whose PI was not received: one is still attributed to the station, further ones are not reported
SCENARIO(s_nopi) {
  Options o = baseOptions();
  const u16 pi = v16("pi");
  symx_assume(pi != 0);
  Dec d(o);
  G g(pi, blk2(6, 0, 0, 1, 5), 0x1111, 0x2222);
  for (int i = 0; i < 3; i++) d.feed(g);
  bool hadPi = true;
  const unsigned n = static_cast<unsigned>(symx_param("n", 6));
  for (unsigned i = 0; i < n; i++) {
    const unsigned m = pick("mask", 3);   // all, no PI, empty
    g.mask = m == 0 ? 15 : m == 1 ? 14 : 0;
    auto v = d.feed(g);
    bool report = true;
    if (m == 0) hadPi = true; else if (hadPi) hadPi = false; else report = false;
    if (m == 2) report = false;
    check(v.size() == (report ? 1u : 0u), "at most one group in a row is reported without a PI; nothing for an empty group");
    if (report && v.size() == 1) {
      J e = basics(pi, g, false, 6, 0);
      e["in_house_data"].push_back(5); e["in_house_data"].push_back(0x1111); e["in_house_data"].push_back(0x2222);
      expectJson(v[0], e, "a group without PI is reported under the station's PI");
    }
  }
  symx_reached("end");
}
// the repeated PI in block 3 of type B groups counts when block 1 is lost (bit-stream input)
SCENARIO(s_cprime) {
  Options o = baseOptions();
  const u16 pi = v16("pi");
  symx_assume(pi != 0);
  Dec d(o);
  for (unsigned i = 0; i < 5; i++) {
    G g(pi, blk2(6, 1, 0, 1, 5), pi, 0x2222, i == 2 || pick("lost1", 2) ? 14 : 15);
    g.offsets = true;
    auto v = d.feed(g);
    check(v.size() == (i >= 2 ? 1u : 0u), "the PI in block 3 identifies the station");
    if (i >= 2 && v.size() == 1) { J e; e["pi"] = hex0x(pi); expectHas(v[0], e, "the PI in block 3 identifies the station"); }
  }
  symx_reached("end");
}
// whatever was collected for one station, the next one is decoded as if from scratch
SCENARIO(s_clear) {
  Options o = baseOptions();
  o.show_partial = pick("partial", 2) != 0;
  Dec a(o), f(o);
  const u16 pa = 0x6201, pb = 0x5301;
  for (int i = 0; i < 3; i++) a.feed(G(pa, blk2(1, 1, 0, 0, 0), pa, 0));
  const unsigned what = pick("what", 14);
  auto A = [&](unsigned t, unsigned v, unsigned low, u16 b3, u16 b4) { a.feed(G(pa, blk2(t, v, 1, 3, low), b3, b4)); };
  std::vector<G> probe;
  auto Pr = [&](unsigned t, unsigned v, unsigned low, u16 b3, u16 b4) { probe.push_back(G(pb, blk2(t, v, 1, 3, low), b3, b4)); };
  const u16 x = static_cast<u16>('A' + (vb("x", 4)) + 0x4100);
  switch (what) {
    case 0: for (unsigned s = 0; s < 3; s++) A(0, 0, s, 0xCDCD, 0x4142); Pr(0, 0, 3, 0xCDCD, x); break;                        // PS
    case 1: A(0, 0, 0, 0xE3 << 8 | 20, 0x4142); Pr(0, 0, 0, static_cast<u16>(30 << 8 | 40), x); break;                         // AF list under way
    case 2: A(2, 0, 0, 0x4142, 0x4344); Pr(2, 0, 1, x, 0x450D); break;                                                       // RadioText
    case 3: A(2, 0, 16, 0x4142, 0x4344); A(2, 0, 17, 0x4142, 0x0D0D); Pr(2, 0, 16, x, 0x0D0D); break;
    case 4: A(10, 0, 0, 0x4142, 0x4344); Pr(10, 0, 1, x, 0x4344); break;                                                    // PTYN
    case 5: A(14, 0, 0, 0x4142, 0x6202); A(14, 0, 1, 0x4142, 0x6202); A(14, 0, 2, 0x4142, 0x6202); Pr(14, 0, 3, x, 0x6202); break;   // EON PS
    case 6: A(14, 0, 4, 0xE3 << 8 | 20, 0x6202); Pr(14, 0, 4, static_cast<u16>(30 << 8 | 40), 0x6202); break;                   // EON AF
    case 7: A(15, 0, 0, 0x4142, 0x4344); Pr(15, 0, 1, x, 0x450D); break;                                                    // long PS
    case 8: A(3, 0, 22, 0, 0x4BD7); Pr(11, 0, 8, x, 0x4344); break;                                                         // RT+ assignment
    case 9: A(3, 0, 13 << 1, 1, 0x6552); A(13, 0, 0, 0x4142, 0x4344); Pr(3, 0, 13 << 1, 1, 0x6552); Pr(13, 0, 1, x, 0x450D); break;   // eRT
    case 10: A(3, 0, 16, 0, 0x0093); Pr(8, 1, 1, x, 0x4344); Pr(8, 0, 1, x, 0x4344); break;                                 // DAB on 8A
    case 11: A(3, 0, 16, 0x0066, 0xCD46); Pr(8, 0, 1, x, 0x4344); break;                                                    // TMC system info
    case 12: A(5, 0, 0, 0x4142, 0x4344); Pr(5, 0, 1, x, 0x0D0D); break;                                                     // TDC
    case 13: A(3, 0, 22, 0, 0x4BD7); A(2, 0, 0, 0x4142, 0x430D); Pr(3, 0, 22, 0, 0x4BD7); Pr(11, 0, 8, 0x2000, static_cast<u16>(0x0002)); break;   // RT+ on old text
  }
  G id(pb, blk2(1, 1, 0, 0, 0), pb, 0);
  for (int i = 0; i < 3; i++) { a.feed(id); f.feed(id); }
  for (auto& g : probe) {
    auto va = a.feed(g), vf = f.feed(g);
    check(va.size() == 1 && vf.size() == 1, "one line per group");
    if (va.size() == 1 && vf.size() == 1) expectJson(va[0], vf[0], "a new station is decoded as if from scratch");
  }
  symx_reached("end");
}
// after a lost carrier the PI has to be confirmed again before a new station is taken over
SCENARIO(s_reset) {
  Options o = baseOptions();
  Dec d(o);
  const u16 a = v16("pa"), b = v16("pb");
  symx_assume((a != 0) & (b != 0));
  G ga(a, blk2(6, 1, 0, 1, 5), a, 0x2222), gb(b, blk2(6, 1, 0, 1, 5), b, 0x2222);
  for (int i = 0; i < 3; i++) d.feed(ga);
  d.ch.resetPI();
  for (int i = 0; i < 3; i++) {
    auto v = d.feed(gb);
    check(v.size() == 1, "one line per group");
    if (v.size() != 1) return;
    J e; e["pi"] = i < 2 ? hex0x(a) : hex0x(b);
    expectHas(v[0], e, "after a reset a PI must again be received three times");
  }
  symx_reached("end");
}
