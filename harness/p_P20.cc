// P20: ASCII bit input: only the characters 0 and 1 count, in order, up to the end of the input.
// @bound whole program runs on a 5-group bit stream with an arbitrary byte at any of 24 places (inserted or in place of a bit), cut at any of the last 110 lengths, with one bit flipped anywhere in the last group, with feed-through
// @scenario s_insert quick=60
// @scenario s_replace quick=60
// @scenario s_cut quick=120
// @scenario s_feed quick=60
// @scenario s_json quick=60
#include "cli.h"
#include "bits.h"
using namespace oracle;
namespace {
std::string bitText() {
  std::string s;
  for (unsigned g = 0; g < 5; g++) {
    const u16 b[4] = {0x6201, blk2(0, 1, 0, 1, g & 3), 0x6201, static_cast<u16>(0x4142 + 0x202 * g)};
    for (unsigned i = 0; i < 4; i++) { const u32 w = encode(b[i], i == 2 ? 4 : i); for (int k = 25; k >= 0; k--) s += (w >> k & 1) ? '1' : '0'; }
  }
  return s;
}
// the same bits given to the decoder directly
std::string direct(const std::string& s) {
  Options o = baseOptions();
  o.output_type = redsea::OutputType::Hex;
  Dec d(o);
  for (char c : s) if (c == '0' || c == '1') d.ch.processBit(c == '1', 0);
  d.ch.flush();
  return d.out.ss.str();
}
unsigned place(unsigned k, unsigned n) { return static_cast<unsigned>((k * 4099ul + 7) % n); }
const char* kMsg = "the bits decoded are the characters 0 and 1 of the input";
}
SCENARIO(s_insert) {
  std::string s = bitText();
  const u8 c = v8("c");
  s.insert(place(pick("pos", 24), static_cast<unsigned>(s.size())), 1, static_cast<char>(c));
  Cli x;
  runCli(x, {"-b", "-x"}, s);
  expectStr(x.out, direct(s), kMsg);
  symx_reached("end");
}
SCENARIO(s_replace) {
  std::string s = bitText();
  s[place(pick("pos", 24), static_cast<unsigned>(s.size()))] = static_cast<char>(v8("c"));
  Cli x;
  runCli(x, {"-i", "bits", "-x"}, s + "\n");
  expectStr(x.out, direct(s), kMsg);
  symx_reached("end");
}
SCENARIO(s_cut) {
  std::string s = bitText();
  s = s.substr(0, s.size() - pick("cut", 110));
  Cli x;
  runCli(x, {"-b", "-x"}, pick("nl", 2) ? s + "\n" : s);
  expectStr(x.out, direct(s), kMsg);
  symx_reached("end");
}
SCENARIO(s_feed) {
  std::string s = bitText();
  const u8 c = v8("c");
  s[place(pick("pos", 8), static_cast<unsigned>(s.size()))] = static_cast<char>(c);
  Cli x;
  runCli(x, {"-b", "-e", "-x"}, s);
  expectStr(x.out, s, "feed-through repeats the input exactly");
  expectStr(x.err, direct(s), "decoded groups go to the error output under feed-through");
  symx_reached("end");
}
SCENARIO(s_json) {
  const std::string s = bitText();
  Cli x;
  runCli(x, {"-b", pick("fec", 2) ? "-p" : "--no-fec"}, s);
  const auto ls = splitLines(x.out);
  check(ls.size() == 3, "groups are reported from the third on");
  if (ls.size() == 3) {
    J j; check(parseLine(ls[2], j), "valid JSON");
    J e; e["pi"] = "0x6201"; e["group"] = "0B";
    expectHas(j, e, "groups from bit input are decoded");
  }
  symx_reached("end");
}
