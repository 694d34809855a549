// P01: whatever arrives, decoding goes on: no crash, no corrupted memory, one complete JSON object per line.
// @bound one or two groups with arbitrary contents of every type and loss pattern, on all data streams, after histories announcing every kind of application; arbitrary TMC user groups; enhanced RadioText of arbitrary bytes; whole-program runs on up to 24 arbitrary bytes in a line of hex, TEF or bit input
// @assume group 4A contents are covered by P10; memory errors, uncaught exceptions and failing internal assertions are violations on every explored path, here and in all other properties
// @scenario s_group quick=100 thorough=300
// @scenario s_group2 quick=100 thorough=300
// @scenario s_group3 quick=100 thorough=300
// @scenario s_pair quick=100 thorough=600
// @scenario s_pair2 quick=100 thorough=600
// @scenario s_oda quick=100 thorough=600
// @scenario s_ctype quick=60 thorough=300
// @scenario s_utf8 quick=60 thorough=300 Q.n=1 T.n=2
// @scenario s_tmc quick=100 thorough=600
// @scenario s_tmcmulti quick=100 thorough=600 Q.n=1 T.n=2
// @scenario s_hex quick=100 thorough=600 Q.n=2 T.n=3
// @scenario s_tef quick=100 thorough=600 Q.n=2 T.n=3
// @scenario s_locfile quick=60
#include "cli.h"
using namespace oracle;
namespace {
const u16 kPi = 0x6201;
G any(unsigned type, unsigned mask, const char* a, const char* b, const char* c) {
  const unsigned low = vb(a, 5);
  G g(kPi, static_cast<u16>(type << 11 | 5 << 5 | low), v16(b), v16(c), mask);
  if (type == 10 || type == 20) g.b[3] = 0x4142;
  return g;
}
void feed(Dec& d, const G& g, unsigned stream = 0) {
  const auto v = d.feed(g, stream);
  check(v.size() <= 1, "at most one line per group");
}
Options anyOptions(unsigned k) { Options o = baseOptions(); o.rbds = k == 1; o.show_partial = k == 2; o.show_raw = k == 2; o.bler = k == 1; o.streams = k == 1; return o; }
void oneGroup(unsigned type) {
  const unsigned opt = pick("options", 3), mask = opt ? 15 : 1 + pick("mask", 15);
  Dec d(anyOptions(opt), kPi);
  if (type == 8) symx_end();
  G g = any(type, mask, "low", "b3", "b4");
  g.offsets = pick("offsets", 2);
  feed(d, g);
  symx_reached("end");
}
}
SCENARIO(s_group) { oneGroup(pick("type", 4)); }
SCENARIO(s_group2) { oneGroup(4 + pick("type", 6)); }
SCENARIO(s_group3) { oneGroup(10 + pick("type", 22)); }
// two groups of a type
namespace {
void pairOf(unsigned type) {
  Dec d(anyOptions(pick("options", 2) * 2), kPi);
  const unsigned low = vb("low", 5), low2 = vb("low2", 5);
  const u16 b3 = v16("b3"), b4 = type == 10 || type == 20 || type == 4 ? 0x0D41 : v16("b4");
  feed(d, G(kPi, static_cast<u16>(type << 11 | low), b3, 0x4142));
  feed(d, G(kPi, static_cast<u16>(type << 11 | low2), type == 10 || type == 20 ? 0x0D0D : b3, b4, pick("m2", 2) ? 15 : 7));
  symx_reached("end");
}
}
SCENARIO(s_pair) { static const u8 types[] = {0, 1, 2, 5, 28}; pairOf(types[pick("type", 5)]); }
SCENARIO(s_pair2) { static const u8 types[] = {4, 10, 20, 29, 30, 31}; pairOf(types[pick("type", 6)]); }
// applications announced for group types, then groups of the type
SCENARIO(s_oda) {
  Dec d(anyOptions(0), kPi);
  static const u16 aids[] = {0x0093, 0x4BD7, 0x4BD8, 0x6552, 0x1234};
  static const u8 types[] = {10, 22, 27};
  const unsigned type = types[pick("type", 3)], aid = aids[pick("aid", 5)];
  feed(d, G(kPi, blk2(2, 0, 0, 0, 0), 0x4142, 0x430D));
  feed(d, G(kPi, blk2(3, 0, 0, 0, type), v16("message"), static_cast<u16>(aid)));
  feed(d, G(kPi, static_cast<u16>(type << 11 | 5 << 5 | (pick("low", 2) ? 0x18 : 1)), 0xE1A0, 0x2A55, pick("mask", 2) ? 15 : 3));
  feed(d, G(kPi, static_cast<u16>(type << 11 | 5 << 5 | vb("low2", 5)), v16("b3"), 0xC2B5));
  symx_reached("end");
}
SCENARIO(s_ctype) {
  Options o = baseOptions();
  o.streams = pick("streams", 2);
  Dec d(o, kPi);
  static const u8 heads[] = {0x00, 0x05, 0x20, 0x2F, 0x30, 0x40, 0x7F, 0x80, 0x81, 0xC0, 0xFF};
  const unsigned h = heads[pick("head", 11)];
  unsigned low = v8("low");
  u16 b2 = v16("b2"), b3 = v16("b3");
  if ((h & 0xF0) == 0x20) { low = pick("low2", 2) * 0xFF; b2 = static_cast<u16>((b2 & 255) | (pick("b2hi", 2) ? 0xFF00 : 0)); }
  if (h == 0x80) {
    b2 = pick("aid", 2) ? 0xFF7F : 0x1357;
    symx_assume((b3 >> 12) != 1);
    if (pick("crc", 2)) b3 = static_cast<u16>(1 << 12 | pick("mode", 8) << 9 | (pick("addr", 2) ? 511 : 0));
  }
  const unsigned m = pick("mask", 6);
  feed(d, G(static_cast<u16>(h << 8 | low), b2, b3, v16("b4"), m == 5 ? 0 : m == 4 ? 15 : 15 & ~(1u << m)), 1 + pick("stream", 3));
  symx_reached("end");
}
// enhanced RadioText with arbitrary bytes
SCENARIO(s_utf8) {
  Dec d(baseOptions(), kPi);
  const unsigned n = static_cast<unsigned>(symx_param("n", 1));
  feed(d, G(kPi, blk2(3, 0, 0, 0, 22), static_cast<u16>(pick("utf8", 2) | pick("rtl", 2) << 1), 0x6552));
  for (unsigned i = 0; i < n; i++) feed(d, G(kPi, blk2(11, 0, 0, 0, i), v16("b3"), v16("b4")));
  feed(d, G(kPi, blk2(11, 0, 0, 0, n), 0x0D0D, 0x0D0D));
  symx_reached("end");
}
// TMC user groups of any kind
SCENARIO(s_tmc) {
  Dec d(baseOptions(), kPi);
  const unsigned enc = pick("encrypted", 2);
  feed(d, G(kPi, blk2(3, 0, 0, 0, 16), enc ? 0 : 9 << 6, 0xCD46));
  if (pick("admin", 2)) feed(d, G(kPi, blk2(8, 0, 0, 0, 0), v16("adm3"), v16("adm4")));
  const unsigned x = static_cast<unsigned>(symx_concretize(vb("x", 5)));
  u16 y = v16("y");
  if (x > 8 && x < 15) symx_end();                 // durations
  if (x >= 8 && x < 16) symx_assume((y & 0x3F) == 0x15);
  feed(d, G(kPi, blk2(8, 0, 0, 0, x), y, v16("z")));
  symx_reached("end");
}
// multi-group messages of arbitrary contents
SCENARIO(s_tmcmulti) {
  Dec d(baseOptions(), kPi);
  feed(d, G(kPi, blk2(3, 0, 0, 0, 16), 9 << 6, 0xCD46));
  static const u16 codes[] = {401, 39, 2047};
  feed(d, G(kPi, blk2(8, 0, 0, 0, 1), static_cast<u16>(0x8000 | codes[pick("code", 3)]), 5));
  const unsigned fields = static_cast<unsigned>(symx_param("n", 2));
  u32 w = 0; unsigned left = 28;
  static const u8 width[16] = {3, 3, 5, 5, 5, 8, 8, 8, 8, 11, 16, 16, 16, 16, 0, 0};
  for (unsigned i = 0; i < fields && left >= 4; i++) {
    const unsigned l = pick("label", 16), n = width[l] < left - 4 ? width[l] : left - 4;
    const u32 v = n ? vb("value", static_cast<int>(n)) : 0;
    if (l == 9 && n == 11) symx_assume(v % 64 == 17);
    w = w | l << (left - 4) | v << (left - 4 - n);
    left -= 4 + n;
  }
  static const u8 gsis[3] = {0, 1, 3};
  const unsigned gsi = gsis[pick("gsi", 3)];
  feed(d, G(kPi, blk2(8, 0, 0, 0, 1), static_cast<u16>(1 << 14 | gsi << 12 | w >> 16), static_cast<u16>(w)));
  if (gsi) feed(d, G(kPi, blk2(8, 0, 0, 0, 1), static_cast<u16>(pick("gsi2", 2) << 12), 0x1234));
  symx_reached("end");
}
namespace {
// n arbitrary characters somewhere in a line
void lineOf(const char* format, const std::string& good, const std::string& before) {
  const unsigned n = static_cast<unsigned>(symx_param("n", 3));
  std::string l = good;
  const unsigned at = pick("at", static_cast<unsigned>(good.size()) + 1);
  std::string mid;
  for (unsigned i = 0; i < n; i++) mid += static_cast<char>(v8("char"));
  if (pick("replace", 2)) l = l.substr(0, at) + mid + (at + n < l.size() ? l.substr(at + n) : "");
  else l = l.substr(0, at) + mid;                                // cut off here
  Cli c;
  runCli(c, {"-i", format}, before + l + (pick("newline", 2) ? "\n" + good + "\n" : ""));
  check(c.rc == 0, "the program ends normally");
  for (const auto& s : splitLines(c.out)) { J j; check(parseLine(s, j), "every output line is one complete JSON object"); }
  symx_reached("end");
}
}
SCENARIO(s_hex) { lineOf("hex", "6201 0408 4142 4344", "6201 0408 4142 4344\n6201 0408 4142 4344\n6201 0408 4142 4344\n"); }
SCENARIO(s_tef) { lineOf("tef", "P6201\nR0408414243440000", "P6201\nR04084142434400\nP6201\nR04084142434400\nP6201\nR04084142434400\n"); }
// a damaged location table
SCENARIO(s_locfile) {
  static const char* const rows[] = {"6;17;%;P;1;;500;;1;2\n", "%;17;1000;P;1;;500;;1;2\n", "6;%;1000;P;1;;500;;%;2\n", "%\n", "6;17;1000;P;1;;500;600;1;2;;;%\n", "6;17;1000;P;%;%;%;%;%;%\n"};
  static const char* const values[] = {"", "-", "99999999999999999999", "-2147483648", "1e5", "x", "\xff\xfe"};
  const std::string row = rows[pick("row", 6)], value = values[pick("value", 7)];
  auto* pts = new std::string("CID;TABCD;LCD;CLASS;N1ID;RNID;ROA_LCD;SEG_LCD;XCOORD;YCOORD\n");
  for (char c : row) { if (c == '%') *pts += value; else *pts += c; }
  symx_add_file("loc/POINTS.DAT", pts->data(), pts->size());
  static const char seg[] = "CID;TABCD;LCD;CLASS;ROA_LCD\n6;17;600;L;502\n";
  if (pick("segments", 2)) symx_add_file("loc/SEGMENTS.DAT", seg, sizeof seg - 1);
  static const char* const enc[] = {"", "6;17;1;2;UTF-8;x\n", "6;17;1;2;KOI8-XX;x\n", "6;17;1;2;;\n", "6;17\n", ";;;;\xff\xfe\n"};
  const std::string* readme = new std::string(enc[pick("readme", 6)]);
  symx_add_file("loc/README.DAT", readme->data(), readme->size());
  Options o = baseOptions();
  o.loctable_dirs.emplace_back("loc");
  Dec d(o, kPi);
  feed(d, G(kPi, blk2(3, 0, 0, 0, 16), 17 << 6, 0xCD46));
  feed(d, G(kPi, blk2(8, 0, 0, 0, 8), static_cast<u16>(3 << 11 | 701), 1000));
  symx_reached("end");
}
