// P02: block acceptance and burst error correction.
// @bound one block of a synchronised stream replaced by any of the 2^26 words, in each of the four positions; correction on and off; two damaged blocks in one group, each with any correctable burst
// @scenario s_block quick=300
// @scenario s_burst quick=200
// @scenario s_two quick=200
// @scenario s_same quick=100
#include "bits.h"
using namespace oracle;
namespace {
const u16 kG[4] = {0x6201, 0x6003, 0x1234, 0xABCD};
void sync(Channel& ch) { for (int i = 0; i < 4; i++) pushGroup(ch, kG); }
J last(Out& out) {
  auto v = out.json();
  check(v.size() == 1, "one line per group");
  return v.size() == 1 ? v[0] : J();
}
std::string cell(bool ok, u32 data) { return ok ? hex<4>(data) : std::string("----"); }
}
// any received word: accepted exactly when it is the code word, or (with correction) one burst of at most two bits away from one, and then with that code word's data
SCENARIO(s_block) {
  Options o = baseOptions();
  o.output_type = redsea::OutputType::Hex;
  o.use_fec = pick("fec", 2) != 0;
  const unsigned pos = pick("pos", 4);
  Out out; Channel ch(o, 0, out.ss);
  sync(ch);
  out.ss.str(std::string());
  const u32 w = encode(vb("data", 16), pos) ^ vb("diff", 10);   // every 26-bit word is exactly one (data, difference) pair
  for (unsigned i = 0; i < 4; i++) pushWord(ch, i == pos ? w : encode(kG[i], i));
  auto v = out.lines();
  check(v.size() == 1, "one line per group");
  if (v.size() != 1) return;
  const u32 s = rem26(w) ^ kOffWord[pos];
  u32 ok = 0, which = 0;
  if (o.use_fec) for (unsigned i = 0; i < kNumBursts; i++) { const u32 hit = s == rem26(burst(i)); ok |= hit; which |= hit * (i + 1); }
  ok |= s == 0;
  if (pos == 2) ok |= s == (kOffWord[4] ^ kOffWord[2]);
  std::string cellText = "----";
  if (ok) {
    which = static_cast<u32>(symx_concretize(which));
    cellText = hex<4>((which ? w ^ burst(which - 1) : w) >> 10);
    symx_reached("accepted");
  } else symx_reached("rejected");
  std::string e;
  for (unsigned i = 0; i < 4; i++) { if (i) e += " "; e += i == pos ? cellText : hex<4>(kG[i]); }
  check(seq(v[0], e), "a block is accepted exactly when it is a code word or a correctable burst away from one");
}
// every block content with every burst of up to two bits is restored
SCENARIO(s_burst) {
  Options o = baseOptions();
  o.show_raw = true;
  const unsigned pos = 2 + pick("pos", 2), k = pick("burst", kNumBursts);
  Out out; Channel ch(o, 0, out.ss);
  sync(ch);
  out.json();
  u16 b[4] = {kG[0], kG[1], kG[2], kG[3]};
  b[pos] = v16("data");
  for (unsigned i = 0; i < 4; i++) pushWord(ch, encode(b[i], i) ^ (i == pos ? burst(k) : 0));
  J a = last(out);
  J e; e["raw_data"] = hex<4>(b[0]) + " " + hex<4>(b[1]) + " " + hex<4>(b[2]) + " " + hex<4>(b[3]);
  expectHas(a, e, "a burst of at most two bits is corrected");
  symx_reached("end");
}
// what was received before in another place does not matter: the same word in two positions of the group
SCENARIO(s_same) {
  Options o = baseOptions();
  o.output_type = redsea::OutputType::Hex;
  o.use_fec = pick("fec", 2) != 0;
  const unsigned from = pick("from", 4), first = pick("first", 4), second = pick("second", 4);
  Out out; Channel ch(o, 0, out.ss);
  sync(ch);
  out.ss.str(std::string());
  static const u32 err[] = {0, 1u << 25, 3u << 12, 1};
  const u32 w = encode(pick("data", 2) ? 0x8001 : 0x3C5A, from) ^ err[pick("err", 4)];
  std::string e[2];
  for (unsigned g = 0; g < 2; g++) for (unsigned i = 0; i < 4; i++) {
    const u32 x = i == (g ? second : first) ? w : encode(kG[i], i);
    pushWord(ch, x);
    const Rx r = receive(x, i, o.use_fec);
    if (i) e[g] += " ";
    e[g] += cell(r.ok != 0, r.data);
  }
  const auto v = out.lines();
  check(v.size() == 2, "one line per group");
  if (v.size() == 2) for (unsigned g = 0; g < 2; g++) check(seq(v[g], e[g]), "a word is judged by the position it is received in");
  symx_reached("end");
}
// damage in several blocks of one group is handled block by block
SCENARIO(s_two) {
  Options o = baseOptions();
  o.show_raw = true;
  o.use_fec = pick("fec", 2) != 0;
  Out out; Channel ch(o, 0, out.ss);
  sync(ch);
  out.json();
  std::string e;
  static const u32 err[] = {0, 1u << 25, 3, 3u << 12, 5, 0x7000, 0x15u << 4};
  bool any = false;
  for (unsigned i = 0; i < 4; i++) {
    const unsigned k = pick("err", i == 0 ? 3 : 7);
    pushWord(ch, encode(kG[i], i) ^ err[k]);
    const Rx r = receive(encode(kG[i], i) ^ err[k], i, o.use_fec);
    any |= r.ok != 0;
    if (i) e += " ";
    e += cell(r.ok != 0, r.data);
  }
  auto v = out.json();
  check(v.size() <= 1, "at most one line per group");
  if (any) check(v.size() == 1, "a group with at least one good block is reported");
  if (v.size() == 1) { J x; x["raw_data"] = e; expectHas(v[0], x, "each block is judged on its own"); }
  symx_reached("end");
}
