// P18: hex (RDS Spy) input means what it says, and hex output reads back as the same groups.
// @bound whole program runs on hex input: lines with an arbitrary character in any position; arbitrary block values; lines cut at any length; sequences of up to n lines of 10 kinds; stream prefixes; blanks between blocks in any combination, 0 to 2 at the end; hex output of bit-stream input with every pattern of damaged blocks in type A and B groups; last line with or without newline
// @scenario s_char quick=60
// @scenario s_value quick=60
// @scenario s_cut quick=60
// @scenario s_lines quick=120 thorough=600 Q.n=2 T.n=3
// @scenario s_roundtrip quick=120
// @scenario s_json quick=60
// @scenario s_streams quick=60
// @scenario s_blanks quick=60
// @scenario s_bits quick=120
#include "cli.h"
#include "bits.h"
using namespace oracle;
namespace {
int nib(u8 c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'A' && c <= 'F' ? c - 'A' + 10 : c >= 'a' && c <= 'f' ? c - 'a' + 10 : -1; }
// reference reader: 4 digits per block, blanks between them skipped
bool refLine(const std::string& l0, G& g, unsigned& stream) {
  std::string l = l0;
  stream = 0; g.mask = 0;
  if (l.size() < 16) return false;
  if (l.size() >= 20 && l[0] == '#' && l[1] == 'S' && (l[2] == '1' || l[2] == '2' || l[2] == '3') && l[3] == ' ') { stream = static_cast<unsigned>(l[2] - '0'); l = l.substr(4); }
  std::size_t i = 0;
  for (unsigned b = 0; b < 4; b++) {
    unsigned n = 0, v = 0; bool ok = true;
    while (n < 4 && i < l.size()) {
      const u8 c = static_cast<u8>(l[i++]);
      if (c == ' ') continue;
      const int x = nib(c);
      if (x < 0) ok = false; else v = v << 4 | static_cast<unsigned>(x);
      n++;
    }
    if (n == 4 && ok) { g.mask |= 1u << b; g.b[b] = static_cast<u16>(v); }
  }
  return true;
}
std::string hexLine(const G& g, unsigned stream = 0) {
  std::string s = stream ? std::string("#S") + static_cast<char>('0' + stream) + " " : std::string();
  for (int i = 0; i < 4; i++) { if (i) s += ' '; s += g.has(i + 1) ? hex<4>(g.b[i]) : std::string("----"); }
  return s;
}
std::string refOut(const std::vector<std::string>& lines) {
  std::string r;
  for (const auto& l : lines) { G g; unsigned st; if (refLine(l, g, st) && g.mask) r += hexLine(g, st) + "\n"; }
  return r;
}
const char* kMsg = "each line of hex input is read as the group it states, with undecipherable blocks as lost";
}
SCENARIO(s_char) {
  std::string l = pick("compact", 2) ? "620104ABcdEF9873xx" : "6201 04AB cdEF 9873";
  const unsigned p = pick("pos", static_cast<unsigned>(l.size()));
  const u8 c = v8("c");
  symx_assume((c != '\n'));
  l[p] = static_cast<char>(c);
  Cli x;
  runCli(x, {"-h", "-x"}, l + "\n");
  expectStr(x.out, refOut({l}), kMsg);
  check(x.rc == 0, "exit status");
  symx_reached("end");
}
SCENARIO(s_value) {
  const u16 v = v16("v");
  const unsigned b = pick("block", 4);
  G g(0x6201, 0x04AB, 0xCDEF, 0x9873);
  g.b[b] = v;
  Cli x;
  runCli(x, {"-h", "-x"}, hexLine(g) + "\n");
  expectStr(x.out, hexLine(g) + "\n", kMsg);
  symx_reached("end");
}
SCENARIO(s_cut) {
  static const char* const ls[4] = {"6201 04AB CDEF 9873", "620104ABCDEF9873", "6201  04AB  CDEF  9873  ", "   6201 04AB CDEF 9873 @2024/01/01 12:00:00.00"};
  const std::string l = ls[pick("line", 4)];
  const std::string c = l.substr(0, pick("len", static_cast<unsigned>(l.size()) + 1));
  Cli x;
  runCli(x, {"-h", "-x"}, pick("nl", 2) ? c + "\n" : c);
  expectStr(x.out, refOut({c}), kMsg);
  symx_reached("end");
}
SCENARIO(s_lines) {
  static const char* const kinds[10] = {"6201 04AB CDEF 9873", "6201 2410 ---- 4243", "---- ---- ---- ----", "", "# comment", "#S1 6201 04AB CDEF 9873", "6201 zz11 CDEF 9873 @2024/01/01", "6201 04AB CDEF 9873\r",
                                        "#S2 this is a longer comment", "6201 04ab cdef 98"};
  const unsigned n = static_cast<unsigned>(symx_param("n", 2));
  std::vector<std::string> ls; std::string in;
  for (unsigned i = 0; i < n; i++) { ls.push_back(kinds[pick("kind", 10)]); in += ls.back() + "\n"; }
  ls.push_back(kinds[pick("last", 4)]);
  in += ls.back();
  if (pick("nl", 2)) in += "\n";
  Cli x;
  runCli(x, {"-h", "-x", "-s"}, in);
  expectStr(x.out, refOut(ls), kMsg);
  symx_reached("end");
}
// what is printed as hex reads back as the same group
SCENARIO(s_roundtrip) {
  const unsigned m = pick("mask", 16), b = pick("block", 4);
  G g(0x6201, 0x04AB, 0xCDEF, 0x9873, m);
  g.b[b] = v16("v");
  Options o = baseOptions();
  o.output_type = redsea::OutputType::Hex;
  const unsigned st = pick("stream", 4);
  Dec d(o);
  d.ch.processGroup(mkGroup(g), st);
  const std::string first = d.out.ss.str();
  expectStr(first, m ? hexLine(g, st) + "\n" : std::string(), "hex output states each received block and its stream");
  Cli x;
  runCli(x, {"-h", "-x", "-s"}, first);
  expectStr(x.out, first, "hex output reads back as the same group");
  symx_reached("end");
}
// the decoded output is that of the stated groups
SCENARIO(s_json) {
  const unsigned ty = pick("type", 32), m = 1 | pick("mask", 8) << 1;
  G a(0x6201, blk2(0, 0, 0, 1, 0), 0xCDCD, 0x4142), g(0x6201, blk2(ty >> 1, ty & 1, 1, 3, 4), 0x2143, 0x4142, m);
  Cli x;
  runCli(x, {"-h"}, hexLine(a) + "\n" + hexLine(a) + "\n" + hexLine(a) + "\n" + hexLine(g) + "\n");
  Options o = baseOptions();
  Dec d(o);
  std::vector<J> want;
  for (const G& q : {a, a, a, g}) for (const J& j : d.feed(q)) want.push_back(j);
  const auto ls = splitLines(x.out);
  check(ls.size() == want.size(), "one line per group");
  for (std::size_t i = 0; i < ls.size() && i < want.size(); i++) { J j; check(parseLine(ls[i], j), "valid JSON"); expectJson(j, want[i], "groups from hex input are decoded as such"); }
  symx_reached("end");
}
SCENARIO(s_streams) {
  const u16 v = v16("v");
  const unsigned st = pick("stream", 4);
  G g(0x4000, 0x2123, 0x4567, v);
  G a(0x6201, blk2(0, 0, 0, 1, 0), 0xCDCD, 0x4142);
  Cli x;
  if (st == 0) g.b[0] = 0x6201;
  runCli(x, {"-h", "--streams"}, hexLine(a) + "\n" + hexLine(a) + "\n" + hexLine(a) + "\n" + hexLine(g, st) + "\n");
  const auto ls = splitLines(x.out);
  check(ls.size() == 2, "one line per group after the PI is confirmed");
  if (ls.size() == 2) {
    J j; check(parseLine(ls[1], j), "valid JSON");
    J e; e["stream"] = static_cast<int>(st); e["group"] = st ? "C" : "2A";
    expectHas(j, e, "the data stream of a hex line is kept");
  }
  symx_reached("end");
}
// blanks between the blocks are optional
SCENARIO(s_blanks) {
  const unsigned st = pick("stream", 4), bl = pick("blanks", 8), trail = pick("trail", 3);
  const G g(0x4000, v16("v"), 0x4567, 0x89AB);
  std::string l = st ? std::string("#S") + static_cast<char>('0' + st) + " " : std::string();
  for (unsigned b = 0; b < 4; b++) { l += hex<4>(g.b[b]); if (b < 3 && (bl >> b & 1)) l += " "; }
  for (unsigned i = 0; i < trail; i++) l += " ";
  Cli x;
  runCli(x, {"-h", "-x", "-s"}, l + "\n");
  expectStr(x.out, hexLine(g, st) + "\n", "a line means the same with and without blanks");
  symx_reached("end");
}
// bit-stream input: every received block of a group is in the hex output, the others are marked
SCENARIO(s_bits) {
  Options o = baseOptions();
  o.output_type = redsea::OutputType::Hex;
  const unsigned m = pick("damaged", 15), ver = pick("version", 2), stream = pick("stream", 2);
  Dec d(o);
  G g(0x6201, blk2(2, ver, 0, 1, 3), ver ? 0x6201 : 0x4142, v16("v"), 15 & ~m);
  for (unsigned k = 0; k < 4; k++) pushGroup(d.ch, g.b, ver != 0, stream);
  for (unsigned i = 0; i < 4; i++) pushWord(d.ch, encode(g.b[i], i == 2 && ver ? 4 : i) ^ (m >> i & 1 ? 0x15A5u : 0u), stream);
  pushGroup(d.ch, g.b, ver != 0, stream);
  const std::string clean = hexLine(G(g.b[0], g.b[1], g.b[2], g.b[3]), stream) + "\n", dam = hexLine(g, stream) + "\n";
  std::string got = d.out.ss.str();
  const std::string tail = dam + clean;
  check(got.size() >= tail.size(), "all groups are shown");
  if (got.size() >= tail.size()) expectStr(got.substr(got.size() - tail.size()), tail, "hex output states each received block and marks the others");
  symx_reached("end");
}
