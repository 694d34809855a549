// P11: slow labelling codes and programme item number (group 1).
// @bound single 1A and 1B groups with arbitrary blocks 1, 3 and 4 and paging bits, and after an arbitrary other group 1; every loss pattern
// @scenario s_1a quick=120
// @scenario s_pin quick=60
// @scenario s_1b quick=30
// @scenario s_after quick=60
// @scenario s_loss quick=30
#include "oracle.h"
using namespace oracle;
namespace {
void addPin(J& e, u16 pin) {
  const unsigned day = pin >> 11, h = pin >> 6 & 31, m = pin & 63;
  if (static_cast<unsigned>((day >= 1) & (h <= 23) & (m <= 59))) {
    e["prog_item_number"] = pin;
    e["prog_item_started"]["day"] = day;
    e["prog_item_started"]["time"] = d2(h) + ":" + d2(m);
  }
}
std::string country(u16 pi, unsigned ecc) {
  const unsigned cc = static_cast<unsigned>(symx_concretize(pi >> 12));
  for (unsigned i = 0; i < 20; i++) if (kEcc[i] == ecc && cc > 0) return kCountry[i][cc - 1];
  return "--";
}
void addSlc(J& e, u16 pi, u16 b3) {
  e["has_linkage"] = (b3 >> 15) != 0;
  switch (symx_concretize(b3 >> 12 & 7)) {
    case 0: if ((b3 & 255) != 0) e["country"] = country(pi, b3 & 255); break;
    case 1: e["tmc_id"] = b3 & 0xFFF; break;
    case 3: e["language"] = lang(b3 & 255); break;
    case 6: e["slc_broadcaster_bits"] = "0x" + hex<3>(b3 & 0x7FF); break;
    case 7: e["ews"] = b3 & 0xFFF; break;
    default: break;
  }
}
void run(Dec& d, u16 pi, const G& g, const J& e) {
  auto v = d.feed(g);
  check(v.size() == 1, "one line per group");
  if (v.size() == 1) expectJson(v[0], e, "slow labelling codes and the programme item number are those transmitted");
}
}
SCENARIO(s_1a) {
  const u16 pi = v16("pi"), b3 = v16("b3");
  static const u16 pins[4] = {0, 0x0ABC, 0x8000 | 13 << 6 | 30, 0xF800 | 31 << 6};
  Dec d(baseOptions(), pi);
  const unsigned k = pick("pin", 4);
  G g(pi, blk2(1, 0, 0, 1, vb("paging", 5)), b3, pins[k]);
  J e = basics(pi, g, false, 1, 0);
  addPin(e, pins[k]); addSlc(e, pi, b3);
  const unsigned b1 = k == 0 ? pick("block1", 3) : 0;      // received, lost, received with another PI
  if (b1) d.feed(G(pi, blk2(9, 0, 0, 1, 0), 0, 0));
  if (b1 == 1) g.mask = 14;
  if (b1 == 2) g.b[0] = static_cast<u16>(pi ^ 0x5003);
  run(d, pi, g, e);
  symx_reached("end");
}
SCENARIO(s_pin) {
  const u16 pin = v16("pin");
  static const u16 slc[3] = {0x00E1, 0x2345, 0xB027};
  const unsigned k = pick("slc", 3);
  Dec d(baseOptions(), 0xE201);
  const G g(0xE201, blk2(1, 0, 0, 1, vb("paging", 5)), slc[k], pin);
  J e = basics(0xE201, g, false, 1, 0);
  addPin(e, pin); addSlc(e, 0xE201, slc[k]);
  run(d, 0xE201, g, e);
  symx_reached("end");
}
SCENARIO(s_1b) {
  const u16 pin = v16("pin");
  Dec d(baseOptions(), 0xE201);
  const G g(0xE201, blk2(1, 1, 0, 1, vb("paging", 5)), 0xE201, pin);
  J e = basics(0xE201, g, false, 1, 1);
  addPin(e, pin);
  run(d, 0xE201, g, e);
  symx_reached("end");
}
// nothing is carried over from an earlier group
SCENARIO(s_after) {
  const u16 a3 = v16("a3");
  Dec d(baseOptions(), 0xE201);
  d.feed(G(0xE201, blk2(1, 0, 0, 1, 4), a3, 0x8B5E));
  static const u16 slc[4] = {0x0000, 0x2345, 0xC000, 0x0142};
  const u16 b3 = slc[pick("slc", 4)], pin = pick("pin", 2) ? 0x0000 : 0x0777;
  const G g(0xE201, blk2(1, 0, 0, 1, pick("pg", 2) * 5), b3, pin);
  J e = basics(0xE201, g, false, 1, 0);
  addPin(e, pin); addSlc(e, 0xE201, b3);
  run(d, 0xE201, g, e);
  symx_reached("end");
}
SCENARIO(s_loss) {
  Dec d(baseOptions(), 0xE201);
  const u16 b3 = v16("b3");
  static const unsigned masks[3] = {3, 7, 11};
  const unsigned m = masks[pick("mask", 3)], ver = pick("ver", 2);
  const G g(0xE201, blk2(1, ver, 0, 1, 0), b3, 0x8B5E, m);
  run(d, 0xE201, g, basics(0xE201, g, false, 1, ver));
  symx_reached("end");
}
