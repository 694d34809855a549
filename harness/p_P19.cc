// P19: TEF6686 tuner input.
// @bound whole program runs on TEF input: arbitrary value of each block, every error byte, sequences of n lines of 11 kinds
// @assume well-formed hex digits in P and R lines
// @scenario s_value quick=60
// @scenario s_err quick=60
// @scenario s_lines quick=120 thorough=600 Q.n=3 T.n=4
// @scenario s_json quick=60
#include "cli.h"
using namespace oracle;
namespace {
std::string hexLine(const G& g) {
  std::string s;
  for (int i = 0; i < 4; i++) { if (i) s += ' '; s += g.has(i + 1) ? hex<4>(g.b[i]) : std::string("----"); }
  return s;
}
std::string refOut(const G& g) { return g.mask ? hexLine(g) + "\n" : std::string(); }
unsigned errMask(unsigned err) { return ((err >> 4 & 3) == 0 ? 2u : 0u) | ((err >> 2 & 3) == 0 ? 4u : 0u) | ((err & 3) == 0 ? 8u : 0u); }
const char* kMsg = "each TEF report is read as the group it states, with erroneous blocks as lost";
}
SCENARIO(s_value) {
  G g(0x6201, 0x04AB, 0xCDEF, 0x9873);
  const unsigned b = pick("block", 4);
  g.b[b] = v16("v");
  Cli x;
  runCli(x, {"-i", "tef", "-x"}, "P" + hex<4>(g.b[0]) + "\nR" + hex<4>(g.b[1]) + hex<4>(g.b[2]) + hex<4>(g.b[3]) + "00\n");
  expectStr(x.out, refOut(g), kMsg);
  check(x.rc == 0, "exit status");
  symx_reached("end");
}
SCENARIO(s_err) {
  G g(0x6201, 0x04AB, 0xCDEF, 0x9873);
  const unsigned err = v8("err");
  const unsigned pi = pick("pi", 2);
  g.mask = static_cast<unsigned>(symx_concretize(errMask(err))) | pi;
  Cli x;
  runCli(x, {"-i", "tef", "-x"}, (pi ? "P6201\n" : "") + std::string("R04ABCDEF9873") + hex<2>(err) + "\n");
  expectStr(x.out, refOut(g), kMsg);
  symx_reached("end");
}
SCENARIO(s_lines) {
  static const char* const kinds[11] = {"P6201", "PE2F5", "R04ABCDEF987300", "R24108001424330", "R2410800142430C", "S42.5,0", "", "R1234", "T98500", "P", "P*"};
  const unsigned n = static_cast<unsigned>(symx_param("n", 3));
  std::string in, want;
  G cur; cur.mask = 0;
  for (unsigned i = 0; i < n; i++) {
    const unsigned k = pick("kind", 11);
    in += std::string(kinds[k]) + "\n";
    if (k <= 1) { cur.b[0] = k ? 0xE2F5 : 0x6201; cur.mask |= 1; }
    else if (k <= 4) {
      static const u16 w[3][4] = {{0x04AB, 0xCDEF, 0x9873, 0x00}, {0x2410, 0x8001, 0x4243, 0x30}, {0x2410, 0x8001, 0x4243, 0x0C}};
      for (int j = 0; j < 3; j++) cur.b[j + 1] = w[k - 2][j];
      cur.mask |= errMask(w[k - 2][3]);
      want += refOut(cur);
      cur = G(); cur.mask = 0;
    }
  }
  want += refOut(cur);     // a PI with nothing following it
  Cli x;
  runCli(x, {"-i", "tef", "-x"}, in);
  expectStr(x.out, want, kMsg);
  symx_reached("end");
}
SCENARIO(s_json) {
  const unsigned ty = pick("type", 32), err = static_cast<unsigned>(symx_concretize(vb("err", 6)));
  const G a(0x6201, blk2(0, 0, 0, 1, 0), 0xCDCD, 0x4142);
  G g(0x6201, blk2(ty >> 1, ty & 1, 1, 3, 4), 0x2143, 0x4142);
  auto ln = [](const G& q, unsigned e) { return "P" + hex<4>(q.b[0]) + "\nR" + hex<4>(q.b[1]) + hex<4>(q.b[2]) + hex<4>(q.b[3]) + hex<2>(e) + "\n"; };
  Cli x;
  runCli(x, {"--input", "tef"}, ln(a, 0) + ln(a, 0) + ln(a, 0) + ln(g, err));
  g.mask = 1 | errMask(err);
  Options o = baseOptions();
  Dec d(o);
  std::vector<J> want;
  for (const G& q : {a, a, a, g}) for (const J& j : d.feed(q)) want.push_back(j);
  const auto ls = splitLines(x.out);
  check(ls.size() == want.size(), "one line per group");
  for (std::size_t i = 0; i < ls.size() && i < want.size(); i++) { J j; check(parseLine(ls[i], j), "valid JSON"); expectJson(j, want[i], "groups from TEF input are decoded as such"); }
  symx_reached("end");
}
