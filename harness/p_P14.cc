// P14: long PS name, programme type name and enhanced RadioText.
// @bound per text: an in-order prefix of any length followed by 1-2 arbitrary groups (address, losses, A/B flag, letters, terminator); whole texts of every length with one arbitrary character; UTF-8 characters at every position
// @assume long PS and enhanced RadioText are valid UTF-8 (enhanced RadioText in its UTF-8 mode); programme type names contain no carriage return
// @scenario s_lps_hist quick=120 thorough=600 Q.n=2 T.n=2 T.all=1
// @scenario s_lps_full quick=60
// @scenario s_lps_utf8 quick=60
// @scenario s_ptyn_hist quick=60 thorough=600 Q.n=3 T.n=5
// @scenario s_ptyn_chars quick=60
// @scenario s_ert_full quick=60
// @scenario s_ert_hist quick=120 thorough=600 Q.n=2 T.n=2 T.all=1
#include "txt.h"
using namespace oracle;
namespace {
const u16 kPi = 0x6201;
void run(Dec& d, const G& g, const J& e, const char* m) {
  auto v = d.feed(g);
  check(v.size() == 1, "one line per group");
  if (v.size() == 1) expectJson(v[0], e, m);
}
// one group of a UTF-8 text; the two blocks count separately
void send(Dec& d, Txt& t, unsigned type, unsigned a, const u8* c, unsigned mask, const char* key, bool partial = false) {
  const G g(kPi, blk2(type, 0, 0, 1, a), two(c[0], c[1]), two(c[2], c[3]), mask);
  if (g.has(3)) t.set2(4 * a, g.b[2]);
  if (g.has(4)) t.set2(4 * a + 2, g.b[3]);
  J e = basics(kPi, g, false, type, 0);
  if ((g.has(3) || g.has(4)) && t.complete()) e[key] = rt(t.bytes());
  else if (partial) e["partial_long_ps"] = t.bytes();
  run(d, g, e, "the text is shown exactly when it is complete, as sent");
}
void hist(unsigned type, Txt& t, Dec& d, const char* key, unsigned segs, const unsigned* addr, unsigned na) {
  const unsigned k = segs > 8 ? static_cast<unsigned>(pick("prefix", 6)) : static_cast<unsigned>(pick("prefix", segs + 1)), n = static_cast<unsigned>(symx_param("n", 2));
  const bool ends = pick("ends", 2) != 0;
  for (unsigned i = 0; i < k; i++) { u8 c[4] = {'A', 'B', 'C', static_cast<u8>(i + 1 == k && ends ? 0x0D : 'D')}; send(d, t, type, i, c, 15, key, d.opt.show_partial); }
  static const unsigned masks[] = {15, 7, 11};
  char nm[8] = "l_0";
  for (unsigned i = 0; i < n; i++) {
    nm[2] = static_cast<char>('0' + i);
    u8 c[4] = {'e', letter(nm), 'g', 'h'};
    const unsigned z = pick("term", 4);
    if (z) c[z] = 0x0D;
    d.feed(G(kPi, blk2(1, 1, 0, 0, 0), kPi, 0));
    send(d, t, type, addr[pick("addr", na)], c, masks[i + 1 < n && !symx_param("all", 0) ? 0u : pick("mask", 3)], key, d.opt.show_partial);
  }
}
G assignErt() { return G(kPi, blk2(3, 0, 0, 1, 13 << 1), 1, 0x6552); }
}
SCENARIO(s_lps_hist) {
  Options o = baseOptions();
  o.show_partial = pick("partial", 2) != 0;
  Dec d(o, kPi);
  Txt t(32);
  static const unsigned a[] = {0, 1, 2, 7};
  hist(15, t, d, "long_ps", 8, a, 4);
  symx_reached("end");
}
SCENARIO(s_lps_full) {
  Dec d(baseOptions(), kPi);
  Txt t(32);
  const unsigned pos = pick("pos", 32);
  const u8 x = static_cast<u8>(vb("x", 7));
  const u8 fill = pick("blank", 2) ? 0x20 : 'M';
  const u8 spec = static_cast<u8>(symx_concretize(x == 0 ? 0u : x == 0x0D ? 1u : x == 0x20 ? 2u : 3u));
  static const u8 conc[3] = {0, 0x0D, 0x20};
  for (unsigned s = 0; s < 8; s++) {
    u8 c[4];
    for (unsigned k = 0; k < 4; k++) { const unsigned i = 4 * s + k; c[k] = i == pos ? (spec < 3 ? conc[spec] : x) : i > pos ? fill : 'L'; }
    send(d, t, 15, s, c, 15, "long_ps");
  }
  symx_reached("end");
}
SCENARIO(s_lps_utf8) {
  Dec d(baseOptions(), kPi);
  Txt t(32);
  const unsigned pos = pick("pos", 29), nb = 2 + pick("bytes", 3);
  u8 m[4];
  const unsigned y = vb("y", 6);
  if (nb == 2) { m[0] = static_cast<u8>(0xC2 + pick("lead", 30)); m[1] = static_cast<u8>(0x80 | y); }
  else if (nb == 3) { m[0] = 0xE2; m[1] = static_cast<u8>(0x80 | y); m[2] = 0xAC; }
  else { m[0] = 0xF0; m[1] = 0x9F; m[2] = static_cast<u8>(0x80 | y); m[3] = 0x82; }
  for (unsigned s = 0; s < 8; s++) {
    u8 c[4];
    for (unsigned k = 0; k < 4; k++) { const unsigned i = 4 * s + k; c[k] = i >= pos && i < pos + nb ? m[i - pos] : 'L'; }
    send(d, t, 15, s, c, 15, "long_ps");
  }
  symx_reached("end");
}
// programme type name: both blocks needed, A/B flag starts it anew
SCENARIO(s_ptyn_hist) {
  Dec d(baseOptions(), kPi);
  Txt t(8);
  const unsigned n = static_cast<unsigned>(symx_param("n", 4));
  unsigned ab = 0;
  char nm[8] = "l_0";
  static const unsigned masks[] = {15, 7, 11};
  for (unsigned i = 0; i < n; i++) {
    nm[2] = static_cast<char>('0' + i);
    d.feed(G(kPi, blk2(1, 1, 0, 0, 0), kPi, 0));
    const unsigned seg = pick("seg", 2), f = pick("ab", 2), m = masks[pick("mask", 3)];
    const G g(kPi, blk2(10, 0, 0, 1, f << 4 | (pick("spare", 2) ? 6u : 0u) | seg), two(letter(nm), 'Q'), two('R', 'S'), m);
    J e = basics(kPi, g, false, 10, 0);
    if (m == 15) {
      if (f != ab) t.clear();
      ab = f;
      t.set2(4 * seg, g.b[2]); t.set2(4 * seg + 2, g.b[3]);
      if (t.complete()) e["pty_name"] = t.str();
    }
    run(d, g, e, "the programme type name is shown exactly when both parts of it arrived under one A/B flag");
  }
  symx_reached("end");
}
SCENARIO(s_ptyn_chars) {
  Dec d(baseOptions(), kPi);
  Txt t(8);
  const unsigned pos = pick("pos", 8); const u8 x = v8("x");
  symx_assume(x != 0x0D);
  for (unsigned s = 0; s < 2; s++) {
    u8 c[4];
    for (unsigned k = 0; k < 4; k++) c[k] = 4 * s + k == pos ? x : static_cast<u8>('A' + k);
    const G g(kPi, blk2(10, 0, 0, 1, s), two(c[0], c[1]), two(c[2], c[3]));
    t.set2(4 * s, g.b[2]); t.set2(4 * s + 2, g.b[3]);
    J e = basics(kPi, g, false, 10, 0);
    if (s) e["pty_name"] = t.str();
    run(d, g, e, "the programme type name is as sent");
  }
  symx_reached("end");
}
// whole messages of every length 0..127 (terminated) and 128
SCENARIO(s_ert_full) {
  Dec d(baseOptions(), kPi);
  d.feed(assignErt());
  Txt t(128);
  const unsigned n = pick("len", 129);
  const u8 x = letter("x");
  for (unsigned a = 0; a < 32 && 4 * a < n + 1; a++) {
    u8 c[4];
    for (unsigned k = 0; k < 4; k++) { const unsigned i = 4 * a + k; c[k] = i < n ? (i + 1 == n ? x : i % 9 == 8 ? 0x20 : 'L') : 0x0D; }
    send(d, t, 13, a, c, 15, "enhanced_radiotext");
  }
  check(t.complete(), "harness: message complete");
  symx_reached("end");
}
SCENARIO(s_ert_hist) {
  Dec d(baseOptions(), kPi);
  d.feed(assignErt());
  Txt t(128);
  static const unsigned a[] = {0, 1, 3, 16, 31};
  hist(13, t, d, "enhanced_radiotext", 32, a, 5);
  symx_reached("end");
}
