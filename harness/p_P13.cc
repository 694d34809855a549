// P13: RadioText Plus and eRT Plus tags.
// @bound every start and length of either tag over messages of 64 characters and shorter terminated ones (mixed one-, two- and three-byte characters); every content type; every order of toggle/running flags and complete or incomplete messages over 3 (thorough 4) steps; eRT messages of up to 128 bytes
// @assume tags reaching exactly one character beyond a terminated message are not judged (some encoders send a length one too high)
// @scenario s_range1 quick=120
// @scenario s_range2 quick=120
// @scenario s_content quick=60
// @scenario s_flags quick=120 thorough=500 Q.n=3 T.n=4
// @scenario s_ert quick=120
// @scenario s_loss quick=60
#include "oracle.h"
using namespace oracle;
namespace {
const u16 kPi = 0x6201;
// tag fields as in ETSI / RDS Forum R06/040_1: block 2 low 5 bits and blocks 3, 4
G tagGroup(unsigned type, unsigned toggle, unsigned running, unsigned c1, unsigned s1, unsigned l1, unsigned c2, unsigned s2, unsigned l2) {
  return G(kPi, blk2(type, 0, 0, 1, toggle << 4 | running << 3 | (c1 >> 3 & 7)), static_cast<u16>((c1 & 7) << 13 | (s1 & 63) << 7 | (l1 & 63) << 1 | (c2 >> 5 & 1)),
           static_cast<u16>((c2 & 31) << 11 | (s2 & 63) << 5 | (l2 & 31)));
}
unsigned chr(unsigned pattern, unsigned i) {
  if (pattern == 0) { static const u8 k[7] = {0x41, 0x99, 0xA3, 0x20, 0x7A, 0x80, 0xAC}; return k[i % 7]; }   // A ü ‰ blank z á ←
  if (pattern == 1) { static const u8 k[5] = {0xE1, 0x30, 0x31, 0x60, 0x5E}; return k[i % 5]; }
  return 0x61 + i % 26;
}
// sends the message, with a terminator when shorter than 64
void sendText(Dec& d, unsigned pattern, unsigned n, unsigned groups = 16, unsigned ab = 0) {
  for (unsigned g = 0; g * 4 < n + (n < 64) && g < groups; g++) {
    u8 c[4];
    for (unsigned k = 0; k < 4; k++) { const unsigned i = g * 4 + k; c[k] = static_cast<u8>(i < n ? chr(pattern, i) : 0x0D); }
    d.feed(G(kPi, blk2(2, 0, 0, 1, ab << 4 | g), static_cast<u16>(c[0] << 8 | c[1]), static_cast<u16>(c[2] << 8 | c[3])));
  }
}
std::string cut(unsigned pattern, unsigned s, unsigned len) {
  std::string r;
  unsigned e = s + len;
  while (e > s && chr(pattern, e - 1) == 0x20) e--;
  for (unsigned i = s; i < e; i++) r += g0(chr(pattern, i));
  return r;
}
void addTag(J& j, unsigned pattern, unsigned n, unsigned c, unsigned s, unsigned len) {
  if (c == 0 || s + len > n) return;
  J t; t["content-type"] = content(c); t["data"] = cut(pattern, s, len);
  j["tags"].push_back(t);
}
void expectTags(Dec& d, const G& g, unsigned type, const char* key, const J& tags, unsigned toggle, unsigned running, const char* msg) {
  auto v = d.feed(g);
  check(v.size() == 1, "one line per group");
  if (v.size() != 1) return;
  J e = basics(kPi, g, false, type, 0);
  J p; p["item_running"] = running != 0; p["item_toggle"] = static_cast<int>(toggle);
  if (tags.is_object()) p["tags"] = tags["tags"];
  e[key] = p;
  expectJson(v[0], e, msg);
}
G assign(unsigned type, u16 aid, u16 msg = 0) { return G(kPi, blk2(3, 0, 0, 1, type << 1), msg, aid); }
const unsigned kLen[4] = {64, 64, 64, 21};
}
SCENARIO(s_range1) {
  Dec d(baseOptions(), kPi);
  d.feed(assign(11, 0x4BD7));
  const unsigned p = pick("pattern", 4), n = kLen[p];
  sendText(d, p % 3, n);
  const unsigned s = static_cast<unsigned>(symx_concretize(vb("start", 6))), l = static_cast<unsigned>(symx_concretize(vb("length", 6)));
  symx_assume(n == 64 || s + l + 1 != n + 1);
  const G g = tagGroup(11, 0, 0, 4, s, l, 0, 0, 0);
  J t; addTag(t, p % 3, n, 4, s, l + 1);
  expectTags(d, g, 11, "radiotext_plus", t, 0, 0, "an RT+ tag shows exactly the tagged characters of the message");
  symx_reached("end");
}
SCENARIO(s_range2) {
  Dec d(baseOptions(), kPi);
  d.feed(assign(12, 0x4BD7));
  const unsigned p = pick("pattern", 4), n = kLen[p];
  sendText(d, p % 3, n);
  const unsigned s = static_cast<unsigned>(symx_concretize(vb("start", 6))), l = static_cast<unsigned>(symx_concretize(vb("length", 5)));
  symx_assume(n == 64 || s + l + 1 != n + 1);
  const G g = tagGroup(12, 0, 0, 1, 0, 4, 33, s, l);
  J t; addTag(t, p % 3, n, 1, 0, 5); addTag(t, p % 3, n, 33, s, l + 1);
  expectTags(d, g, 12, "radiotext_plus", t, 0, 0, "the second RT+ tag shows exactly the tagged characters of the message");
  symx_reached("end");
}
SCENARIO(s_content) {
  Dec d(baseOptions(), kPi);
  d.feed(assign(11, 0x4BD7));
  sendText(d, 2, 64);
  const unsigned c = vb("content", 6);
  const unsigned which = pick("which", 2);
  J t;
  G g;
  if (which == 0) { g = tagGroup(11, 0, 0, c, 3, 7, 1, 20, 3); addTag(t, 2, 64, c, 3, 8); addTag(t, 2, 64, 1, 20, 4); }
  else { g = tagGroup(11, 0, 0, 4, 3, 7, c, 20, 3); addTag(t, 2, 64, 4, 3, 8); addTag(t, 2, 64, c, 20, 4); }
  expectTags(d, g, 11, "radiotext_plus", t, 0, 0, "each RT+ tag has the content type transmitted with it");
  symx_reached("end");
}
// tags refer to a message completed since the last change of item
SCENARIO(s_flags) {
  Dec d(baseOptions(), kPi);
  d.feed(assign(11, 0x4BD7));
  const unsigned n = static_cast<unsigned>(symx_param("n", 3));
  unsigned tog = 0, run = 0; int have = -1;   // pattern of the message known since the last change
  for (unsigned i = 0; i < n; i++) {
    const unsigned what = pick("what", 4);    // nothing, message 2, message 0, incomplete message
    if (what == 1) { sendText(d, 2, 21); have = 2; }
    else if (what == 2) { sendText(d, 0, 21); have = 0; }
    else if (what == 3) { d.feed(G(kPi, blk2(2, 0, 0, 1, 3), 0x5A5A, 0x5A5A)); }
    const unsigned f = static_cast<unsigned>(symx_concretize(vb("flags", 2)));
    if ((f >> 1) != tog || (f & 1) != run) have = -1;
    tog = f >> 1; run = f & 1;
    const G g = tagGroup(11, tog, run, 4, 0, 2, 1, 4, 3);
    J t;
    if (have >= 0) { addTag(t, static_cast<unsigned>(have), 21, 4, 0, 3); addTag(t, static_cast<unsigned>(have), 21, 1, 4, 4); }
    expectTags(d, g, 11, "radiotext_plus", t, tog, run, "RT+ tags come from a complete message of the running item");
  }
  symx_reached("end");
}
// eRT+ refers to the enhanced RadioText, up to 128 bytes of UTF-8
SCENARIO(s_ert) {
  Dec d(baseOptions(), kPi);
  d.feed(assign(13, 0x6552, 1));
  d.feed(assign(12, 0x4BD8));
  // 3-byte, 2-byte and 1-byte characters; 20 * 6 = 120 bytes, then the terminator
  static const u8 unit[6] = {0xE2, 0x82, 0xAC, 0xC3, 0xA4, 'b'};
  static const char* const unitc[3] = {"\xE2\x82\xAC", "\xC3\xA4", "b"};
  const unsigned reps = pick("reps", 2) ? 20u : 4u, nb = reps * 6, nc = reps * 3;
  for (unsigned a = 0; a * 4 <= nb; a++) {
    u8 c[4];
    for (unsigned k = 0; k < 4; k++) c[k] = a * 4 + k < nb ? unit[(a * 4 + k) % 6] : 0x0D;
    d.feed(G(kPi, blk2(13, 0, 0, 1, a), static_cast<u16>(c[0] << 8 | c[1]), static_cast<u16>(c[2] << 8 | c[3])));
  }
  const unsigned s = static_cast<unsigned>(symx_concretize(vb("start", 6))), l = static_cast<unsigned>(symx_concretize(vb("length", 6)));
  symx_assume(s + l + 1 != nc + 1);
  const G g = tagGroup(12, 0, 0, 4, s, l, 0, 0, 0);
  J t;
  if (s + l + 1 <= nc) {
    J x; x["content-type"] = content(4); std::string r;
    for (unsigned i = s; i <= s + l; i++) r += unitc[i % 3];
    x["data"] = r; t["tags"].push_back(x);
  }
  expectTags(d, g, 12, "ert_plus", t, 0, 0, "an eRT+ tag shows exactly the tagged characters of the enhanced RadioText");
  symx_reached("end");
}
// a lost block takes only its own tag away
SCENARIO(s_loss) {
  Dec d(baseOptions(), kPi);
  d.feed(assign(11, 0x4BD7));
  sendText(d, 0, 64);
  if (pick("before", 2)) {
    const G h = tagGroup(11, 0, 0, 1, 20, 5, 33, 30, 7);
    J t; addTag(t, 0, 64, 1, 20, 6); addTag(t, 0, 64, 33, 30, 8);
    expectTags(d, h, 11, "radiotext_plus", t, 0, 0, "a whole tag group");
  }
  const unsigned c2 = vb("content", 6), s = static_cast<unsigned>(symx_concretize(vb("start", 6)));
  G g = tagGroup(11, 0, 0, 4, 3, 7, c2, s, 1);
  static const unsigned masks[3] = {3, 7, 11};
  g.mask = masks[pick("mask", 3)];
  auto v = d.feed(g);
  check(v.size() == 1, "one line per group");
  if (v.size() == 1) {
    J e = basics(kPi, g, false, 11, 0);
    J p; p["item_running"] = false; p["item_toggle"] = 0;
    if (g.mask == 7) { J t; addTag(t, 0, 64, 4, 3, 8); p["tags"] = t["tags"]; }
    e["radiotext_plus"] = p;
    expectJson(v[0], e, "only completely received tags are shown");
  }
  symx_reached("end");
}
