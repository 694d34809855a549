// P26: open data applications: announcement (3A), routing of groups to them, DAB cross-referencing.
// @bound 3A groups with arbitrary group code, message and application; one or two announcements with any group codes followed by a group of any type; DAB groups with arbitrary contents
// @assume application identifiers of TMC (CD46, CD47) are covered by P16
// @scenario s_announce quick=120
// @scenario s_route quick=120
// @scenario s_two quick=120
// @scenario s_dab quick=60
// @scenario s_loss quick=30
#include "txt.h"
using namespace oracle;
namespace {
const u16 kPi = 0x6201;
J feed1(Dec& d, const G& g) { auto v = d.feed(g); check(v.size() == 1, "one line per group"); return v.size() == 1 ? v[0] : J(); }
G announce(unsigned code, u16 aid, u16 msg = 0) { return G(kPi, blk2(3, 0, 0, 1, code), msg, aid); }
// group types that an announcement can never take over
bool fixedUse(unsigned ty) { const unsigned t = ty >> 1, b = ty & 1; return t <= 2 || (t == 3 && !b) || (t == 4 && !b) || (t == 10 && !b) || t == 14 || (t == 15 && b); }
struct Dab { u32 khz; const char* name; };
const Dab kDab[] = {{174928, "5A"}, {176640, "5B"}, {178352, "5C"}, {180064, "5D"}, {181936, "6A"}, {183648, "6B"}, {185360, "6C"}, {187072, "6D"}, {188928, "7A"}, {190640, "7B"}, {192352, "7C"}, {194064, "7D"},
  {195936, "8A"}, {197648, "8B"}, {199360, "8C"}, {201072, "8D"}, {202928, "9A"}, {204640, "9B"}, {206352, "9C"}, {208064, "9D"}, {209936, "10A"}, {211648, "10B"}, {213360, "10C"}, {215072, "10D"},
  {216928, "11A"}, {218640, "11B"}, {220352, "11C"}, {222064, "11D"}, {223936, "12A"}, {225648, "12B"}, {227360, "12C"}, {229072, "12D"}, {230784, "13A"}, {232496, "13B"}, {234208, "13C"}, {235776, "13D"},
  {237488, "13E"}, {239200, "13F"}};
std::string dabName(u32 khz) {
  for (const auto& d : kDab) if (d.khz == khz) return d.name;
  for (u32 i = 0; i < 23; i++) if (khz == 1452960 + 1712 * i) return std::string("L") + static_cast<char>('A' + i);
  return "";
}
void expectApp(J& e, u16 aid, const G& g) {
  if (aid == 0x0093) {
    J& x = e["dab"];
    static const char* const mode[4] = {"unspecified", "I", "II or III", "IV"};
    x["mode"] = mode[g.b[1] >> 2 & 3];
    const u32 khz = 16 * (static_cast<u32>(g.b[1] & 3) << 16 | g.b[2]);
    x["kilohertz"] = khz;
    const std::string n = dabName(khz);
    if (!n.empty()) x["channel"] = n;
    x["ensemble_id"] = hex0x(g.b[3]);
  } else if (aid == 0x4BD7) {
    e["radiotext_plus"]["item_running"] = (g.b[1] >> 3 & 1) != 0; e["radiotext_plus"]["item_toggle"] = static_cast<int>(g.b[1] >> 4 & 1);
  } else if (aid == 0x4BD8) {
    e["ert_plus"]["item_running"] = (g.b[1] >> 3 & 1) != 0; e["ert_plus"]["item_toggle"] = static_cast<int>(g.b[1] >> 4 & 1);
  } else {
    J& x = e["unknown_oda"];
    x["app_id"] = hex<4>(aid); x["app_name"] = appName(aid);
    x["raw_data"] = hex<2>(g.b[1] & 31) + " " + hex<4>(g.b[2]) + " " + hex<4>(g.b[3]);
  }
}
const u16 kAid[4] = {0x0093, 0x4BD7, 0x4BD8, 0x0BCB};
}
SCENARIO(s_announce) {
  Dec d(baseOptions(), kPi);
  const unsigned code = vb("code", 5);
  const u16 msg = v16("msg"), aid = v16("aid");
  symx_assume((aid != 0xCD46) & (aid != 0xCD47));
  const unsigned cc = static_cast<unsigned>(symx_concretize(code));
  const G g = announce(cc, aid, msg);
  J got = feed1(d, g);
  J e = basics(kPi, g, false, 3, 0);
  J& o = e["open_data_app"];
  o["oda_group"] = std::to_string(cc >> 1) + (cc & 1 ? "B" : "A");
  o["app_name"] = appName(aid);
  if (aid != 0x0093 && aid != 0x4BD7 && aid != 0x4BD8 && aid != 0x6552) o["message"] = msg;
  expectJson(got, e, "the announced application and group are shown");
  symx_reached("end");
}
SCENARIO(s_route) {
  const unsigned code = pick("code", 32), ty = pick("type", 32);
  const u16 aid = kAid[pick("aid", 4)];
  const G g(kPi, blk2(ty >> 1, ty & 1, 0, 1, 9), 0x2A5C, 0x4E01);
  Dec d(baseOptions(), kPi);
  feed1(d, announce(code, aid));
  J got = feed1(d, g);
  if (ty == code && !fixedUse(ty)) {
    J e = basics(kPi, g, false, ty >> 1, ty & 1);
    expectApp(e, aid, g);
    expectJson(got, e, "a group goes to the application announced for its type");
  } else {
    Dec f(baseOptions(), kPi);
    expectJson(got, feed1(f, g), "an announcement does not affect other group types or groups with a fixed use");
  }
  symx_reached("end");
}
// the latest announcement for a group type counts, others stay
SCENARIO(s_two) {
  static const u8 tys[5] = {22, 23, 16, 12, 30};
  const unsigned c1 = tys[pick("code1", 5)], c2 = tys[pick("code2", 5)], ty = tys[pick("type", 5)];
  const u16 a1 = kAid[pick("aid1", 4)], a2 = kAid[pick("aid2", 4)];
  const G g(kPi, blk2(ty >> 1, ty & 1, 0, 1, 9), v16("b3") | 0x8000, v16("b4") & 0x07FF);
  Dec d(baseOptions(), kPi);
  feed1(d, announce(c1, a1));
  feed1(d, announce(c2, a2));
  if (ty != c1 && ty != c2) symx_end();
  const u16 aid = ty == c2 ? a2 : a1;
  J e = basics(kPi, g, false, ty >> 1, ty & 1);
  expectApp(e, aid, g);
  expectJson(feed1(d, g), e, "the latest announcement for a group type counts");
  symx_reached("end");
}
SCENARIO(s_dab) {
  Dec d(baseOptions(), kPi);
  const unsigned code = pick("code", 2) ? 16u : 25u;
  feed1(d, announce(code, 0x0093, v16("msg")));
  const unsigned low = vb("low", 5);
  const G g(kPi, blk2(code >> 1, code & 1, 0, 1, low), v16("b3"), v16("b4"));
  J e = basics(kPi, g, false, code >> 1, code & 1);
  if (!(low >> 4 & 1)) expectApp(e, 0x0093, g);
  expectJson(feed1(d, g), e, "the DAB ensemble is shown with its frequency, channel, mode and identifier as transmitted");
  symx_reached("end");
}
// an announcement with a lost block announces nothing
SCENARIO(s_loss) {
  static const unsigned masks[3] = {7, 11, 3};
  const unsigned k = pick("mask", 3);
  Dec d(baseOptions(), kPi);
  G a = announce(22, 0x4BD7); a.mask = masks[k];
  J e0 = basics(kPi, a, false, 3, 0);
  expectJson(feed1(d, a), e0, "nothing is announced by a damaged 3A group");
  const G g(kPi, blk2(11, 0, 0, 1, 9), v16("b3"), v16("b4"));
  J e = basics(kPi, g, false, 11, 0);
  e["unknown_oda"]["raw_data"] = "09 " + hex<4>(g.b[2]) + " " + hex<4>(g.b[3]);
  expectJson(feed1(d, g), e, "nothing is announced by a damaged 3A group");
  symx_reached("end");
}
