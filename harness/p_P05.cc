// P05: a lost block contributes nothing.
// @bound one group of any type with any combination of lost blocks, from each of 8 decoder states; a station repeating one message of 7 kinds of text, received in any order of n groups with any losses; the lost blocks' true contents arbitrary
// @scenario s_subset quick=300 thorough=800
// @scenario s_keeps quick=200
// @scenario s_text quick=120 thorough=600 Q.n=3 T.n=4
// @scenario s_hex quick=60
#include "oracle.h"
using namespace oracle;
namespace {
// everything shown for the damaged group is also shown for the intact one
unsigned inside(const J& a, const J& b, bool raw = false) {
  if (a.is_object()) {
    if (!b.is_object()) return 0;
    unsigned ok = 1;
    for (auto it = a.begin(); it != a.end(); ++it) {
      if (it.key() == "debug" || it.key() == "enhanced_radiotext" || it.key() == "long_ps") continue;   // texts accumulated over several groups: see P14
      const J* x = jfind(b, it.key());
      if (!x) return 0;
      ok &= inside(it.value(), *x, it.key() == "raw_data");
    }
    return ok;
  }
  if (a.is_array()) {
    if (!b.is_array() || a.size() > b.size()) return 0;
    unsigned ok = 1;
    for (std::size_t i = 0; i < a.size(); i++) ok &= inside(a[i], b[i]);
    return ok;
  }
  if (raw && a.is_string() && b.is_string()) {
    const std::string &x = a.get_ref<const std::string&>(), &y = b.get_ref<const std::string&>();
    if (x.size() != y.size()) return 0;
    unsigned ok = 1;
    for (std::size_t i = 0; i < x.size(); i++) if (x[i] != '-') ok &= x[i] == y[i];
    return ok;
  }
  return jeq(a, b);
}
const u16 kPi = 0x6201;
void prepare(Dec& d, unsigned st) {
  auto A = [&](unsigned t, unsigned v, unsigned low, u16 b3, u16 b4) { d.feed(G(kPi, blk2(t, v, 1, 3, low), b3, b4)); };
  switch (st) {
    case 1: A(3, 0, 22, 0, 0x4BD7); for (unsigned i = 0; i < 3; i++) A(2, 0, i, 0x4142, i == 2 ? 0x430D : 0x4344); break;
    case 2: A(3, 0, 22, 1, 0x6552); for (unsigned i = 0; i < 3; i++) A(11, 0, i, 0x4142, i == 2 ? 0x430D : 0x4344); break;
    case 3: A(3, 0, 22, 0, 0x0093); A(3, 0, 10, 0, 0x0093); break;
    case 4: A(3, 0, 22, 0x1234, 0xABCD); A(3, 0, 10, 0, 0xABCD); break;
    case 5: A(3, 0, 22, 0, 0x4BD8); break;
    case 6: for (unsigned i = 0; i < 8; i++) A(15, 0, i, 0x4142, 0x4344); for (unsigned i = 0; i < 4; i++) A(0, 0, i, 0xCDCD, 0x4142); for (unsigned i = 0; i < 2; i++) A(10, 0, i, 0x4142, 0x4344); break;
    case 7: for (unsigned i = 0; i < 4; i++) A(14, 0, i, 0x4142, 0x6202); A(5, 0, 0, 0x4142, 0x430D); break;
    default: break;
  }
}
}
SCENARIO(s_subset) {
  Options o = baseOptions();
  o.show_raw = true;
  const unsigned st = pick("state", 8), type = pick("type", 16), ver = pick("ver", 2);
  { const unsigned only = static_cast<unsigned>(symx_param("only", 99)); if (only != 99 && type * 2 + ver != only) symx_end(); }
  if (st >= 1 && st <= 5 && !(type == 11 && !ver) && !(st >= 3 && st <= 4 && type == 5)) symx_end();
  if (st == 6 && type != 0 && type != 10 && type != 15) symx_end();
  if (st == 7 && type != 14 && type != 5) symx_end();
  static const unsigned masks[] = {14, 11, 7, 3, 13, 9, 5, 1, 6, 10, 2};
  const unsigned mi = pick("mask", 11);
  Dec d(o, kPi), f(o, kPi);
  prepare(d, st); prepare(f, st);
  G g(kPi, blk2(type, ver, 1, 3, type == 14 ? pick("var", 16) : type == 11 ? pick("lo", 4) * 8 + 1 : type == 15 || type == 2 || type == 0 ? pick("lo3", 4) : 0), 0x4143, 0x4546, masks[mi]);
  if (type == 1) g.b[2] = static_cast<u16>(g.b[2] | pick("slc", 8) << 12);
  if (type == 3 && !ver) { static const u16 aid[] = {0x4BD7, 0x6552, 0x1111, 0x0093}; g.b[3] = aid[pick("aid", 4)]; }
  auto va = d.feed(g);
  check(va.size() <= 1, "at most one line per group");
  if (va.size() != 1) { symx_reached("silent"); return; }
  // anything beyond the common fields?
  bool extra = false;
  for (auto it = va[0].begin(); it != va[0].end(); ++it) extra |= !(it.key() == "pi" || it.key() == "group" || it.key() == "tp" || it.key() == "prog_type" || it.key() == "raw_data" || it.key() == "debug");
  G h = g;
  h.mask = 15;
  if (extra) {
    if (!g.has(2)) check(0, "a group of unknown type shows nothing but the PI");
    static const u16 few[] = {0, 0xFFFF, 0x0A6A, 0xA0C1};
    auto lost = [&](const char* n) -> u16 {
      if (st == 1 || st == 5) return few[pick(n, 4)];            // RadioText Plus: tag positions
      const u16 x = v16(n);
      if (st == 2 || type == 15) symx_assume((x & 0x8080) == 0);   // UTF-8 texts
      return x;
    };
    if (!g.has(3)) h.b[2] = lost("lost3");
    if (!g.has(4)) h.b[3] = lost("lost4");
  }
  auto vf = f.feed(h);
  check(vf.size() == 1, "one line per group");
  if (vf.size() != 1) return;
  const unsigned ok = inside(va[0], vf[0]);
#ifndef SYMX
  if (!ok) std::fprintf(stderr, "damaged %s\nintact  %s\n", va[0].dump().c_str(), vf[0].dump().c_str());
#endif
  check(ok, "everything shown for a damaged group is true of the group that was sent");
  symx_reached("end");
}
// a damaged group does not spoil what is shown later: the next intact transmission of the same text gives the same result as without the damage
SCENARIO(s_keeps) {
  Options o = baseOptions();
  static const unsigned masks[] = {11, 7, 3, 13, 9, 5, 1};
  const unsigned what = pick("what", 6), mask = masks[pick("mask", 7)], at = pick("at", 2);
  Dec d(o, kPi), f(o, kPi);
  std::vector<G> seq;
  auto A = [&](unsigned t, unsigned v, unsigned low, u16 b3, u16 b4) { seq.push_back(G(kPi, blk2(t, v, 1, 3, low), b3, b4)); };
  const u8 x = v8("x");
  symx_assume((x >= 'a') & (x <= 'z'));
  const u16 w = static_cast<u16>(x << 8 | 'B');
  switch (what) {
    case 0: for (unsigned i = 0; i < 4; i++) A(0, 1, i, kPi, w); break;
    case 1: A(2, 0, 0, w, 0x4344); A(2, 0, 1, w, 0x430D); break;
    case 2: A(10, 0, 0, w, 0x4344); A(10, 0, 1, w, 0x4345); break;
    case 3: A(15, 0, 0, w, 0x4344); A(15, 0, 1, w, 0x430D); break;
    case 4: for (unsigned i = 0; i < 4; i++) A(14, 0, i, w, 0x6202); break;
    case 5: A(3, 0, 22, 1, 0x6552); A(11, 0, 0, w, 0x4344); A(11, 0, 1, w, 0x430D); break;
  }
  const std::size_t k = at ? seq.size() - 1 : 0;
  G g = seq[k];
  g.mask = mask;
  // a damaged copy first, then everything intact
  for (std::size_t i = 0; i < k; i++) { d.feed(seq[i]); f.feed(seq[i]); }
  d.feed(g);
  d.feed(G(kPi, blk2(1, 1, 0, 0, 0), kPi, 0)); f.feed(G(kPi, blk2(1, 1, 0, 0, 0), kPi, 0));
  for (std::size_t i = 0; i < seq.size(); i++) {
    auto va = d.feed(seq[i]), vf = f.feed(seq[i]);
    check(va.size() == 1 && vf.size() == 1, "one line per group");
    if (va.size() == 1 && vf.size() == 1) expectJson(va[0], vf[0], "a damaged group leaves no trace once the text is received intact");
  }
  symx_reached("end");
}
// a station sends one text over and over; whatever arrives in which order and however damaged, a text that is shown is the one that is sent
SCENARIO(s_text) {
  const unsigned what = pick("what", 7), n = static_cast<unsigned>(symx_param("n", 3));
  Dec d(baseOptions(), kPi);
  const unsigned segs = what == 0 || what == 4 ? 4 : what == 2 ? 2 : 3;
  const bool pairs = what == 0 || what == 4 || what == 6;           // two characters per group
  std::string msg = pairs ? (what == 6 ? "abcde" : "abcdefgh") : what == 2 ? "abcdefgh" : "abcdefghi";
  const u8 x = v8("x");
  symx_assume((x >= 'A') & (x <= 'Z'));
  msg[pick("xat", 2) ? msg.size() - 2 : 2] = static_cast<char>(x);
  std::string sent = msg;
  if (what == 1 || what == 3 || what == 5 || what == 6) sent += '\r';
  while (sent.size() < 12) sent += 'q';
  if (what == 5) d.feed(G(kPi, blk2(3, 0, 1, 3, 22), 1, 0x6552));
  auto group = [&](unsigned a, unsigned mask) {
    const std::size_t p = a * (pairs ? 2 : 4);
    auto w = [&](std::size_t i) { return static_cast<u16>(static_cast<u8>(sent[i]) << 8 | static_cast<u8>(sent[i + 1])); };
    const u16 lo = w(p), hi = pairs ? lo : w(p + 2);
    switch (what) {
      case 0: return G(kPi, blk2(0, 1, 1, 3, a), kPi, lo, mask);
      case 1: return G(kPi, blk2(2, 0, 1, 3, a), lo, hi, mask);
      case 2: return G(kPi, blk2(10, 0, 1, 3, a), lo, hi, mask);
      case 3: return G(kPi, blk2(15, 0, 1, 3, a), lo, hi, mask);
      case 4: return G(kPi, blk2(14, 0, 1, 3, a), lo, 0x6202, mask);
      case 5: return G(kPi, blk2(11, 0, 1, 3, a), lo, hi, mask);
      default: return G(kPi, blk2(2, 1, 1, 3, a), kPi, lo, mask);
    }
  };
  static const char* const key[] = {"ps", "radiotext", "pty_name", "long_ps", "ps", "enhanced_radiotext", "radiotext"};
  const unsigned pre = pick("prefix", segs);
  auto run = [&](const G& g) {
    const std::vector<J> v = d.feed(g);
    check(v.size() <= 1, "at most one line per group");
    if (v.size() != 1) return;
    const J* o = what == 4 ? jfind(v[0], "other_network") : &v[0];
    const J* t = o ? jfind(*o, key[what]) : nullptr;
    if (!t) return;
    symx_reached("shown");
    check(t->is_string(), "texts are strings");
    const std::string& got = t->get_ref<const std::string&>();
    const bool repeats = (what == 1 || what == 6) && got.size() < msg.size();      // a RadioText whose beginning keeps repeating counts as complete without a terminator
    check(seq(got, repeats ? msg.substr(0, got.size()) : msg), "a text shown is the one that is sent, whatever was lost");
  };
  for (unsigned i = 0; i < pre; i++) run(group(i, 15));
  static const unsigned masks[] = {15, 11, 7, 3};
  for (unsigned i = 0; i < n; i++) { const unsigned a = pick("addr", segs); run(group(a, masks[pick("mask", 4)])); }
  symx_reached("end");
}
// the hex form marks lost blocks and shows the others unchanged
SCENARIO(s_hex) {
  Options o = baseOptions();
  o.output_type = redsea::OutputType::Hex;
  Out out; Channel ch(o, 0, out.ss);
  G g(v16("b1"), v16("b2"), v16("b3"), v16("b4"), pick("mask", 16));
  ch.processGroup(mkGroup(g), 0);
  auto v = out.lines();
  if (g.mask == 0) { check(v.empty(), "nothing for an empty group"); return; }
  check(v.size() == 1, "one line per group");
  if (v.size() != 1) return;
  std::string e;
  for (int i = 0; i < 4; i++) { if (i) e += " "; e += g.has(i + 1) ? hex<4>(g.b[i]) : std::string("----"); }
  check(seq(v[0], e), "lost blocks are shown as dashes, received ones with their data");
  symx_reached("end");
}
