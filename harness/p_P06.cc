// P06: fields carried by every group, and the tuning flags of groups 0 and 15B.
// @bound one group after the station is known; all 32 group types, every TP/PTY/TA/MS/DI value, every PI; hex-style and bit-stream groups; RDS and RBDS tables
// @scenario s_common quick=60
// @scenario s_type0 quick=60
// @scenario s_type15b quick=60
// @scenario s_pi quick=60
// @scenario s_options quick=60
// @scenario s_twice quick=60
#include "oracle.h"
using namespace oracle;
// every group type: PI, group name, TP and programme type
SCENARIO(s_common) {
  Options o = baseOptions();
  o.rbds = pick("rbds", 2) != 0;
  const unsigned type = pick("type", 16), ver = pick("ver", 2);
  Dec d(o, 0xC2A1);
  G g(0xC2A1, blk2(type, ver, vb("tp", 1), vb("pty", 5), pick("low", 2) ? 0x15 : 0), 0xCDCD, 0x2041);
  g.offsets = pick("bits", 2) != 0;
  if (ver && g.offsets) g.b[2] = 0xC2A1;
  g.mask = 3 | pick("m34", 4) << 2;
  J a = d.one(g, "one line per group");
  J e;
  e["pi"] = "0xC2A1";
  if (!(ver && g.offsets && !g.has(3))) e["group"] = std::to_string(type) + (ver ? "B" : "A");   // block 3 tells the versions apart in a bit stream
  e["tp"] = (g.b[1] >> 10 & 1) != 0;
  e["prog_type"] = pty(g.b[1] >> 5 & 31, o.rbds);
  expectHas(a, e, "pi, group, tp and prog_type are those of the group");
  if (!(type == 0 || (type == 15 && ver))) expectLacks(a, {"ta", "is_music", "di"}, "ta, is_music and di only come from groups 0 and 15B");
  symx_reached("end");
}
SCENARIO(s_type0) {
  Options o = baseOptions();
  const unsigned ver = pick("ver", 2);
  Dec d(o, 0x6201);
  G g(0x6201, blk2(0, ver, 1, 10, vb("low5", 5)), ver ? 0x6201 : 0xCDCD, 0x2041);
  g.offsets = pick("bits", 2) != 0;
  J a = d.one(g, "one line per group");
  J e = basics(0x6201, g, false, 0, ver);
  const unsigned seg = static_cast<unsigned>(symx_concretize(g.b[1] & 3));
  e["di"][diKey(seg)] = (g.b[1] >> 2 & 1) != 0;
  e["ta"] = (g.b[1] >> 4 & 1) != 0;
  e["is_music"] = (g.b[1] >> 3 & 1) != 0;
  expectJson(a, e, "0A/0B: exactly the flags in block 2");
  symx_reached("end");
}
SCENARIO(s_type15b) {
  Options o = baseOptions();
  Dec d(o, 0x6201);
  const u16 b2 = blk2(15, 1, vb("tp", 1), 10, vb("low5", 5));
  G g(0x6201, b2, 0x6201, b2);
  g.offsets = pick("bits", 2) != 0;
  J a = d.one(g, "one line per group");
  J e = basics(0x6201, g, false, 15, 1);
  const unsigned seg = static_cast<unsigned>(symx_concretize(g.b[1] & 3));
  e["di"][diKey(seg)] = (g.b[1] >> 2 & 1) != 0;
  e["ta"] = (g.b[1] >> 4 & 1) != 0;
  e["is_music"] = (g.b[1] >> 3 & 1) != 0;
  expectJson(a, e, "15B: exactly the flags in block 2");
  symx_reached("end");
}
SCENARIO(s_pi) {
  Options o = baseOptions();
  const u16 pi = v16("pi");
  Dec d(o, pi);
  static const unsigned ty[] = {0, 6, 4, 14};
  const unsigned type = ty[pick("type", 4)];
  G g(pi, blk2(type, 0, 0, 0, 0), 0xCDCD, 0x2041);
  J a = d.one(g, "one line per group");
  J e; e["pi"] = hex0x(pi);
  expectHas(a, e, "pi is printed as 0x and four upper-case hex digits");
  symx_reached("end");
}
// optional fields: only when asked for
SCENARIO(s_options) {
  Options o = baseOptions();
  const unsigned m = pick("opt", 8);
  o.show_raw = m & 1; o.streams = (m & 2) != 0; o.num_channels = (m & 4) ? 2 : 1;
  Out out; Channel ch(o, 1, out.ss);
  G g(0x6201, blk2(6, 0, 0, 0, 3), v16("b3"), v16("b4"), 0);
  g.mask = 3 | pick("m34", 4) << 2;
  for (int i = 0; i < 2; i++) { ch.processGroup(mkGroup(g), 0); check(out.json().empty(), "nothing before the PI is confirmed"); }
  ch.processGroup(mkGroup(g), 0);
  auto v = out.json();
  check(v.size() == 1, "one line once the PI is confirmed");
  if (v.size() != 1) return;
  J e = basics(0x6201, g, false, 6, 0);
  if (o.streams) e["stream"] = 0;
  if (o.num_channels > 1) e["channel"] = 1;
  if (o.show_raw) e["raw_data"] = "6201 6003 " + (g.has(3) ? hex<4>(g.b[2]) : std::string("----")) + " " + (g.has(4) ? hex<4>(g.b[3]) : std::string("----"));
  e["in_house_data"].push_back(3);
  if (g.has(3)) { e["in_house_data"].push_back(g.b[2]); if (g.has(4)) e["in_house_data"].push_back(g.b[3]); }
  expectJson(v[0], e, "optional fields appear exactly when enabled");
  symx_reached("end");
}
// nothing of the previous group leaks into the next line
SCENARIO(s_twice) {
  Options o = baseOptions();
  Dec d(o, 0x6201);
  const unsigned t1 = pick("t1", 32);
  G g1(0x6201, static_cast<u16>(t1 << 11 | 0x03F5), 0xE1CD, 0x4142);
  d.feed(g1);
  if (t1 == 6) { G g3(0x6201, blk2(3, 0, 0, 0, 12), 0, 0x4BD7); d.feed(g3); }
  G g2(0x6201, blk2(14, 1, vb("tp", 1), vb("pty", 5), vb("on", 2) << 3), 0x6201, 0x6202);
  J a = d.one(g2, "one line per group");
  J e = basics(0x6201, g2, false, 14, 1);
  e["other_network"]["pi"] = "0x6202";
  e["other_network"]["tp"] = (g2.b[1] >> 4 & 1) != 0;
  e["other_network"]["ta"] = (g2.b[1] >> 3 & 1) != 0;
  expectJson(a, e, "a line only reports its own group");
  symx_reached("end");
}
