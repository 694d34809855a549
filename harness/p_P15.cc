// P15: data the decoder does not interpret is passed on exactly (transparent data, in-house data, unassigned open data groups).
// @bound single groups 5A, 5B, 6A, 6B and ODA-only groups with arbitrary contents and every loss pattern; transparent data messages: an in-order prefix of any length up to all 32 segments followed by one arbitrary segment
// @assume complete transparent data messages are text (no zero bytes)
// @scenario s_tdc quick=60
// @scenario s_full quick=60
// @scenario s_inhouse quick=30
// @scenario s_oda quick=60
#include "txt.h"
using namespace oracle;
namespace {
const u16 kPi = 0x6201;
J feed1(Dec& d, const G& g) { auto v = d.feed(g); check(v.size() == 1, "one line per group"); return v.size() == 1 ? v[0] : J(); }
std::string hx(u8 b) { return hex<2>(b); }
const unsigned kMasks[4] = {15, 7, 11, 3};
}
SCENARIO(s_tdc) {
  Dec d(baseOptions(), kPi);
  const unsigned b = pick("ver", 2), a = vb("address", 5), pos = pick("pos", 4);
  const u8 x = v8("x");
  u8 c[4] = {'A', 'b', 0x20, '5'};
  c[pos] = x;
  const unsigned m = kMasks[pick("mask", 4)];
  const G g(kPi, blk2(5, b, 0, 1, a), two(c[0], c[1]), two(c[2], c[3]), m);
  J got = feed1(d, g);
  J e = basics(kPi, g, false, 5, b);
  J& t = e["transparent_data"];
  t["address"] = a;
  if (!b && m == 15) {
    t["raw"] = hx(c[0]) + " " + hx(c[1]) + " " + hx(c[2]) + " " + hx(c[3]);
    Txt w(4); w.set2(0, g.b[2]); w.set2(2, g.b[3]);
    t["as_text"] = w.str();
    Txt f(128);
    symx_assume((a != 0) | (x != 0x0D));      // a complete message: see s_full
  } else if (b && g.has(4)) {
    t["raw"] = hx(c[2]) + " " + hx(c[3]);
    Txt w(2); w.set2(0, g.b[3]);
    t["as_text"] = w.str();
  }
  expectJson(got, e, "transparent data are shown as transmitted");
  symx_reached("end");
}
SCENARIO(s_full) {
  Dec d(baseOptions(), kPi);
  Txt f(128);
  const unsigned k = pick("prefix", 33);
  const bool ends = pick("ends", 2) != 0;
  auto send = [&](unsigned a, u8* c) {
    const G g(kPi, blk2(5, 0, 0, 1, a), two(c[0], c[1]), two(c[2], c[3]));
    J got = feed1(d, g);
    f.set2(4 * a, g.b[2]); f.set2(4 * a + 2, g.b[3]);
    J e = basics(kPi, g, false, 5, 0);
    J& t = e["transparent_data"];
    t["address"] = a;
    t["raw"] = hx(c[0]) + " " + hx(c[1]) + " " + hx(c[2]) + " " + hx(c[3]);
    Txt w(4); w.set2(0, g.b[2]); w.set2(2, g.b[3]);
    t["as_text"] = w.str();
    if (f.complete()) {
      t["full_text"] = f.str();
      std::string r; const unsigned n = f.expected();
      for (unsigned i = 0; i < n; i++) r += (i ? " " : "") + hx(f.at(i));
      t["full_raw"] = r;
    }
    expectJson(got, e, "a transparent data message is shown exactly when complete, as transmitted");
  };
  for (unsigned i = 0; i < k; i++) { u8 c[4] = {'A', static_cast<u8>('A' + i % 26), 'c', static_cast<u8>(ends && i + 1 == k ? 0x0D : 'd')}; send(i, c); }
  static const unsigned addr[5] = {0, 1, 2, 30, 31};
  u8 c[4] = {'x', letter("l"), 'y', static_cast<u8>(pick("term", 2) ? 0x0D : 'z')};
  send(addr[pick("addr", 5)], c);
  symx_reached("end");
}
SCENARIO(s_inhouse) {
  Dec d(baseOptions(), kPi);
  const unsigned b = pick("ver", 2), low = vb("low", 5), m = kMasks[pick("mask", 4)];
  const u16 b3 = v16("b3"), b4 = v16("b4");
  const G g(kPi, blk2(6, b, 0, 1, low), b3, b4, m);
  J got = feed1(d, g);
  J e = basics(kPi, g, false, 6, b);
  J& a = e["in_house_data"];
  a.push_back(low);
  if (!b) { if (g.has(3)) { a.push_back(b3); if (g.has(4)) a.push_back(b4); } }
  else if (g.has(4)) a.push_back(b4);
  expectJson(got, e, "in-house data are shown as transmitted");
  symx_reached("end");
}
// groups for open data applications nobody announced
SCENARIO(s_oda) {
  Dec d(baseOptions(), kPi);
  static const u8 types[12] = {3 * 2 + 1, 4 * 2 + 1, 7 * 2 + 1, 8 * 2 + 1, 9 * 2 + 1, 10 * 2 + 1, 11 * 2, 11 * 2 + 1, 12 * 2, 12 * 2 + 1, 13 * 2, 13 * 2 + 1};
  const unsigned ty = types[pick("type", 12)], m = kMasks[pick("mask", 4)], low = vb("low", 5);
  const G g(kPi, blk2(ty >> 1, ty & 1, 0, 1, low), v16("b3"), v16("b4"), m);
  J got = feed1(d, g);
  J e = basics(kPi, g, false, ty >> 1, ty & 1);
  e["unknown_oda"]["raw_data"] = hex<2>(low) + " " + (g.has(3) ? hex<4>(g.b[2]) : "----") + " " + (g.has(4) ? hex<4>(g.b[3]) : "----");
  expectJson(got, e, "open data groups without a known application are shown raw");
  symx_reached("end");
}
