// P08: RadioText assembly.
// @bound histories of 2A (or 2B) groups of one station: an in-order prefix of up to 3 groups followed by n arbitrary groups (address, A/B flag, terminator position and letters free); whole 64/32-character messages; every character code in every position; unterminated messages of up to 6 groups repeated with one group altered
// @assume a station uses either 2A or 2B groups for one message, not both
// @scenario s_hist quick=120 thorough=800 Q.n=2 T.n=3
// @scenario s_loss quick=120 thorough=800 Q.n=2 T.n=3
// @scenario s_full quick=120
// @scenario s_unterminated quick=120
// @scenario s_trim quick=60
#include "oracle.h"
using namespace oracle;
namespace {
std::string rt(std::string s) { while (!s.empty() && s.back() == ' ') s.pop_back(); return s; }
struct Rt {                       // reference
  u8 c[64]; unsigned size = 64, run = 0; int prev = 0; bool ab = false; std::string last;
  Rt() { for (auto& x : c) x = 0; }
  unsigned expected() const { for (unsigned i = 0; i < size; i++) if (c[i] == 0x0D) return i + 1; return size; }
  bool terminated() const { for (unsigned i = 0; i < size; i++) if (c[i] == 0x0D) return true; return false; }
  bool complete() const { return run >= expected(); }
  void set(unsigned p, u8 x) {
    c[p] = x;
    if (p == 0) run = 1;
    else if (static_cast<int>(p) == prev + 1 && run == p) run = p + 1;
    prev = static_cast<int>(p);
  }
  std::string str() const {
    std::string r;
    const unsigned n = expected();
    for (unsigned i = 0; i < n; i++) r += i < run && c[i] != 0x0D && c[i] != 0 ? g0(c[i]) : std::string(" ");
    return r;
  }
};
void step(Dec& d, Rt& r, const G& g, bool b) {
  auto v = d.feed(g);
  check(v.size() == 1, "one line per group");
  if (v.size() != 1) return;
  J e = basics(0x6201, g, false, 2, b);
  if (g.has(3) && g.has(4)) {
    const unsigned pos = (g.b[1] & 15) * (b ? 2 : 4);
    const bool ab = (g.b[1] >> 4 & 1) != 0;
    if (d.opt.show_partial) e["rt_ab"] = ab ? "B" : "A";
    r.size = b ? 32 : 64;
    bool confirmed = false; std::string whole;
    if (pos == 0 && r.run > 1 && !r.complete() && !r.terminated()) {
      whole = rt(r.str());
      confirmed = whole == r.last;
      r.last = whole;
    }
    if (ab != r.ab) r.run = 0;
    r.ab = ab;
    if (!b) { r.set(pos, static_cast<u8>(g.b[2] >> 8)); r.set(pos + 1, static_cast<u8>(g.b[2])); }
    r.set(pos + (b ? 0 : 2), static_cast<u8>(g.b[3] >> 8)); r.set(pos + (b ? 1 : 3), static_cast<u8>(g.b[3]));
    if (r.complete()) e["radiotext"] = rt(r.str());
    else if (confirmed) e["radiotext"] = whole;
    else if (d.opt.show_partial && !rt(r.str()).empty()) e["partial_radiotext"] = r.str();
  }
  expectJson(v[0], e, "RadioText is shown exactly when a whole message was received, as sent");
}
u8 letter(const char* n) { const u8 c = v8(n); symx_assume((c >= 'a') & (c <= 'z')); return c; }
u16 two(u8 a, u8 b) { return static_cast<u16>(a << 8 | b); }
}
SCENARIO(s_hist) {
  Options o = baseOptions();
  Dec d(o, 0x6201); Rt r;
  const bool b = pick("ver", 2) != 0;
  const unsigned n = static_cast<unsigned>(symx_param("n", 3)), k = pick("prefix", 4);
  const bool ends = pick("prefix_ends", 2) != 0;
  for (unsigned i = 0; i < k; i++) step(d, r, G(0x6201, blk2(2, b, 0, 1, i), b ? 0x6201 : 0x4142, i + 1 == k && ends ? 0x430D : 0x4344), b);
  static const unsigned addr[] = {0, 1, 2, 15};
  char nm[8] = "l_00";
  for (unsigned i = 0; i < n; i++) {
    nm[2] = static_cast<char>('0' + i);
    u8 c[4];
    const unsigned cr = pick("cr", b ? 3 : 4);
    for (unsigned q = 0; q < 4; q++) { nm[3] = static_cast<char>('0' + q); c[q] = b && q < 2 ? 0 : letter(nm); }
    if (cr) c[b ? cr + 1 : cr == 1 ? 0 : cr == 2 ? 1 : 3] = 0x0D;
    step(d, r, G(0x6201, blk2(2, b, 0, 1, pick("ab", 2) << 4 | addr[pick("addr", 4)]), b ? 0x6201 : two(c[0], c[1]), two(c[2], c[3])), b);
  }
  symx_reached("end");
}
SCENARIO(s_loss) {
  Options o = baseOptions();
  o.show_partial = true;
  Dec d(o, 0x6201); Rt r;
  const bool b = pick("ver", 2) != 0;
  const unsigned n = static_cast<unsigned>(symx_param("n", 2)), k = pick("prefix", 3);
  for (unsigned i = 0; i < k; i++) step(d, r, G(0x6201, blk2(2, b, 0, 1, i), b ? 0x6201 : 0x4142, 0x4344), b);
  static const unsigned masks[] = {15, 11, 7, 14, 3};
  for (unsigned i = 0; i < n; i++) {
    d.feed(G(0x6201, blk2(1, 1, 0, 0, 0), 0x6201, 0));
    const unsigned m = masks[pick("mask", 5)];
    const u8 x = letter("x"), y = letter("y");
    step(d, r, G(0x6201, blk2(2, b, 0, 1, pick("ab", 2) << 4 | pick("addr", 4)), b ? 0x6201 : two(x, 'Q'), pick("cr", 2) ? two(y, 0x0D) : two(y, y), m), b);
  }
  symx_reached("end");
}
// a whole message without terminator, any character anywhere
SCENARIO(s_full) {
  Options o = baseOptions();
  Dec d(o, 0x6201); Rt r;
  const bool b = pick("ver", 2) != 0;
  const unsigned pos = pick("pos", b ? 32 : 64);
  const u8 x = v8("char");
  auto at = [&](unsigned p) { return p == pos ? x : static_cast<u8>('A' + p % 26); };
  for (unsigned i = 0; i < 16; i++) {
    const unsigned p = i * (b ? 2 : 4);
    step(d, r, G(0x6201, blk2(2, b, 0, 1, 16 | i), b ? 0x6201 : two(at(p), at(p + 1)), b ? two(at(p), at(p + 1)) : two(at(p + 2), at(p + 3))), b);
  }
  symx_reached("end");
}
// no terminator, shorter than 64: shown only when repeated unchanged
SCENARIO(s_unterminated) {
  Options o = baseOptions();
  o.show_partial = pick("partial", 2) != 0;
  Dec d(o, 0x6201); Rt r;
  const bool b = pick("ver", 2) != 0;
  const unsigned k = 1 + pick("groups", 6), odd = pick("odd", 7), what = pick("what", 4);
  const u8 x = letter("x"), y = letter("y"), z = letter("z");
  for (unsigned cyc = 0; cyc < 3; cyc++)
    for (unsigned i = 0; i < k; i++) {
      const bool alt = cyc == 1 && i == odd;
      if (alt && what == 1) continue;                    // lost altogether
      u16 w = two('k', 'b');
      if (i == 0) w = two(x, 'b');
      if (alt && what == 0) w = two('k', z);             // a different letter
      if (alt && what == 3) w = two('k', 0x0D);
      const unsigned ab = cyc >= 1 && what == 2 && (cyc > 1 || i >= odd) ? 1 : 0;   // A/B flips in the middle
      step(d, r, G(0x6201, blk2(2, b, 0, 1, ab << 4 | i), b ? 0x6201 : two('p', y), w), b);
    }
  step(d, r, G(0x6201, blk2(2, b, 0, 1, 0), b ? 0x6201 : two('p', y), two(x, 'b')), b);
  symx_reached("end");
}
// trailing blanks are not part of the message, leading and inner ones are
SCENARIO(s_trim) {
  Options o = baseOptions();
  Dec d(o, 0x6201); Rt r;
  u8 c[8];
  char nm[4] = "c0";
  for (unsigned i = 0; i < 7; i++) { nm[1] = static_cast<char>('0' + i); const u8 x = v8(nm); symx_assume((x == ' ') | ((x >= 'a') & (x <= 'z'))); c[i] = x; }
  c[7] = 0x0D;
  for (unsigned i = 0; i < 2; i++) step(d, r, G(0x6201, blk2(2, 0, 0, 1, i), two(c[4 * i], c[4 * i + 1]), two(c[4 * i + 2], c[4 * i + 3])), false);
  symx_reached("end");
}
