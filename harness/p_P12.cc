// P12: information on other networks (group 14).
// @bound single 14A/14B groups with every variant, arbitrary blocks 3 and 4; PS names of two interleaved networks: in-order prefixes and n arbitrary segments; AF lists of up to n code pairs; 1..n networks (32; thorough 128) whose names and AF lists are all sent interleaved; lost blocks
// @scenario s_variant quick=120
// @scenario s_freq quick=60
// @scenario s_ps quick=120 thorough=600 Q.n=3 T.n=5
// @scenario s_pschars quick=60
// @scenario s_af quick=120 thorough=600 Q.n=2 T.n=3
// @scenario s_many quick=120 thorough=600 Q.n=32 T.n=128
// @scenario s_b quick=30
// @scenario s_loss quick=30
#include "txt.h"
#include "af.h"
using namespace oracle;
namespace {
const u16 kPi = 0x6201;
J base(const G& g, unsigned ver = 0, bool rbds = false) {
  J e = basics(kPi, g, rbds, 14, ver);
  if (g.has(4)) { e["other_network"]["pi"] = hex0x(g.b[3]); e["other_network"]["tp"] = (g.b[1] >> 4 & 1) != 0; }
  return e;
}
void run(Dec& d, const G& g, const J& e) {
  auto v = d.feed(g);
  check(v.size() == 1, "one line per group");
  if (v.size() == 1) expectJson(v[0], e, "the other network's data are exactly those transmitted for it");
}
}
// variants without history
SCENARIO(s_variant) {
  Options o = baseOptions();
  o.rbds = pick("rbds", 2) != 0;
  Dec d(o, kPi);
  const u16 b3 = v16("b3"), on = v16("on");
  static const unsigned vars[6] = {10, 11, 12, 13, 14, 15};
  const unsigned var = vars[pick("variant", 6)];
  const G g(kPi, blk2(14, 0, 0, 1, vb("tpon", 1) << 4 | var), b3, on);
  J e = base(g, 0, o.rbds);
  if (o.rbds) e["callsign"] = "WFBL";
  J& n = e["other_network"];
  if (var == 12) { n["has_linkage"] = (b3 >> 15) != 0; if ((b3 >> 15) && (b3 & 0xFFF) != 0) n["linkage_set"] = b3 & 0xFFF; }
  else if (var == 13) { n["prog_type"] = pty(b3 >> 11, o.rbds); n["ta"] = (b3 & 1) != 0; }
  else if (var == 14) {
    const unsigned day = b3 >> 11, h = b3 >> 6 & 31, m = b3 & 63;
    if (static_cast<unsigned>((day >= 1) & (h <= 23) & (m <= 59))) { n["prog_item_number"] = b3; n["prog_item_started"]["day"] = day; n["prog_item_started"]["time"] = d2(h) + ":" + d2(m); }
  } else if (var == 15) n["broadcaster_data"] = hex<4>(b3);
  run(d, g, e);
  symx_reached("end");
}
// mapped frequencies (variants 5-8: FM, 9: AM)
SCENARIO(s_freq) {
  Dec d(baseOptions(), kPi);
  const u16 b3 = v16("b3");
  const unsigned var = 5 + pick("variant", 5);
  const G g(kPi, blk2(14, 0, 0, 1, var), b3, 0xE2F5);
  J e = base(g);
  const unsigned c = b3 & 255;
  if (var == 9) {
    if (c >= 1 && c <= 135) e["other_network"]["kilohertz"] = c <= 15 ? 144 + 9 * static_cast<int>(c) : 531 + 9 * (static_cast<int>(c) - 16);
  } else if (c >= 1 && c <= 204) e["other_network"]["kilohertz"] = 87500 + 100 * static_cast<int>(c);
  run(d, g, e);
  symx_reached("end");
}
SCENARIO(s_ps) {
  Dec d(baseOptions(), kPi);
  Txt t[2] = {Txt(8), Txt(8)};
  const u16 on0 = v16("on0"), on1 = v16("on1");
  symx_assume(on0 != on1);
  const unsigned n = static_cast<unsigned>(symx_param("n", 3)), k0 = pick("k0", 5), k1 = pick("k1", 3) * 2;
  char nm[8] = "l_0";
  auto send = [&](unsigned w, unsigned seg, u16 x) {
    const G g(kPi, blk2(14, 0, 0, 1, seg), x, w ? on1 : on0);
    t[w].set2(2 * seg, x);
    J e = base(g);
    if (t[w].complete()) e["other_network"]["ps"] = t[w].str();
    run(d, g, e);
  };
  for (unsigned i = 0; i < 4; i++) { if (i < k0) send(0, i, two('A' + i, 'Q')); if (i < k1) send(1, i, two('a' + i, 'q')); }
  for (unsigned i = 0; i < n; i++) {
    nm[2] = static_cast<char>('0' + i);
    const unsigned w = i + 1 < n ? pick("net", 2) : 0u;
    send(w, pick("seg", 4), two(letter(nm), '5'));
  }
  symx_reached("end");
}
SCENARIO(s_pschars) {
  Dec d(baseOptions(), kPi);
  Txt t(8);
  const unsigned pos = pick("pos", 8); const u8 c = v8("c");
  symx_assume(c != 0x0D);
  for (unsigned s = 0; s < 4; s++) {
    const u16 x = two(pos == 2 * s ? c : 'A', pos == 2 * s + 1 ? c : 'B');
    const G g(kPi, blk2(14, 0, 0, 1, s), x, 0xE2F5);
    t.set2(2 * s, x);
    J e = base(g);
    if (s == 3) e["other_network"]["ps"] = t.str();
    run(d, g, e);
  }
  symx_reached("end");
}
SCENARIO(s_af) {
  Dec d(baseOptions(), kPi);
  Af af[2];
  const unsigned n = static_cast<unsigned>(symx_param("n", 2));
  auto send = [&](unsigned w, u16 x) {
    const G g(kPi, blk2(14, 0, 0, 1, 4), x, w ? 0x6202 : 0x6203);
    af[w].code(static_cast<u8>(x >> 8)); af[w].code(static_cast<u8>(x));
    J e = base(g);
    if (af[w].complete()) { e["other_network"]["alt_frequencies"] = af[w].listA(); af[w].clear(); }
    run(d, g, e);
  };
  const unsigned len = 1 + pick("len", 5);
  send(0, two(224 + len, 30));
  if (pick("other", 2)) send(1, two(227, 40));
  for (unsigned i = 0; i < n; i++) {
    static const u8 few[5] = {1, 204, 205, 250, 0};
    const u16 x = i + 1 < n ? two(10 + i, few[pick("code", 5)]) : two(v8("hi"), pick("lo", 2) ? 205u : 77u);
    send(0, x);
  }
  symx_reached("end");
}
// many networks at once: every one of them keeps its own name and its own AF list
SCENARIO(s_many) {
  Dec d(baseOptions(), kPi);
  const unsigned n = static_cast<unsigned>(symx_param("n", 14));
  const unsigned nets = 1 + pick("nets", n);
  const bool af = pick("af", 2) != 0;
  const unsigned rounds = af ? 3 : 8;
  const u8 c = letter("c");
  std::vector<Txt> t(nets, Txt(8));
  std::vector<Af> a(nets);
  for (unsigned r = 0; r < rounds; r++)
    for (unsigned w = 0; w < nets; w++) {
      const u16 on = static_cast<u16>(0x6210 + 0x137 * w);
      const unsigned seg = r % 4;
      const u16 x = af ? (r == 0 ? two(224 + 5, 1 + w) : two(50 + r + w, 100 + r + w))
                       : two(w % 3 == 1 ? c : static_cast<u8>('A' + (w + seg + r) % 26), static_cast<u8>('a' + (w * 3 + seg) % 26));
      const G g(kPi, blk2(14, 0, 0, 1, af ? 4 : seg), x, on);
      J e = base(g);
      if (af) {
        a[w].code(static_cast<u8>(x >> 8)); a[w].code(static_cast<u8>(x));
        if (a[w].complete()) { e["other_network"]["alt_frequencies"] = a[w].listA(); a[w].clear(); }
      } else {
        t[w].set2(2 * seg, x);
        if (t[w].complete()) e["other_network"]["ps"] = t[w].str();
      }
      run(d, g, e);
    }
  symx_reached("end");
}
SCENARIO(s_b) {
  Dec d(baseOptions(), kPi);
  const u16 on = v16("on");
  const G g(kPi, blk2(14, 1, 0, 1, vb("low", 5)), kPi, on);
  J e = base(g, 1);
  e["other_network"]["ta"] = (g.b[1] >> 3 & 1) != 0;
  run(d, g, e);
  symx_reached("end");
}
SCENARIO(s_loss) {
  Dec d(baseOptions(), kPi);
  const unsigned var = static_cast<unsigned>(symx_concretize(vb("variant", 4)));
  static const unsigned masks[3] = {3, 7, 11};
  const G g(kPi, blk2(14, 0, 0, 1, var), 0x4142, v16("on"), masks[pick("mask", 3)]);
  run(d, g, base(g));
  symx_reached("end");
}
