// P03: synchronisation to the bit stream, judged by an independent block receiver (EN 50067 annex C).
// @bound start anywhere in a group; any pattern of damage over the first 12 (thorough 14) blocks; after 13 clean groups a stretch of 1..60 blocks damaged throughout or in one of 6 patterns, a slip of -26..26 bits, and clean reception after it; an arbitrary byte in any of the blocks 1, 3 and 5 (thorough: the first 5); arbitrary bits (8, thorough 12) before the first block; type A and B groups, with and without error correction
// @scenario s_start quick=60
// @scenario s_pattern quick=120 thorough=600 Q.n=12 T.n=14
// @scenario s_hold quick=200 thorough=600 T.all=1
// @scenario s_slip quick=200
// @scenario s_word quick=200 thorough=400 T.all=1
// @scenario s_far quick=120 thorough=300 steps=3000000000 Q.n=16 T.n=17
// @scenario s_lead quick=200 thorough=600 Q.n=6 T.n=9
#include "bits.h"
using namespace oracle;
namespace {
const u16 kPi = 0x6201;
// ---- the reference ----
struct Ref {
  bool fec = true, sync = false;
  u32 reg = 0; unsigned wait = 1, want = 0;      // want: position 0..3 of the next block
  long now = 0;
  struct Pulse { int pos; long at; };
  std::vector<Pulse> pulses;                      // the last four detected
  std::vector<unsigned> errs;                     // the last 50 blocks
  u16 b[4] = {0, 0, 0, 0}; unsigned mask = 0;
  std::vector<std::string> lines;
  static bool inRhythm(const Pulse& a, const Pulse& b) {
    const long d = b.at - a.at;
    return d % 26 == 0 && d / 26 <= 6 && (a.pos + d / 26) % 4 == b.pos;
  }
  void bit(unsigned x) {
    reg = (reg << 1 | x) & 0x3FFFFFF;
    now++;
    if (--wait) return;
    word();
    wait = sync ? 26 : 1;
  }
  void word() {
    const u32 s = rem26(reg);
    bool third = false, prime = false;
    if (!sync) {
      int off = -1;
      for (int i = 0; i < 5; i++) if (s == kOffWord[i]) off = i;
      if (off < 0) return;
      const Pulse p{off == 4 ? 2 : off, now};
      if (pulses.size() == 4) pulses.erase(pulses.begin());
      pulses.push_back(p);
      for (std::size_t i = 0; i + 2 < pulses.size(); i++) for (std::size_t j = i + 1; j + 1 < pulses.size(); j++)
        third |= inRhythm(pulses[i], pulses[j]) && inRhythm(pulses[j], pulses.back());
      if (!third) return;
      sync = true; want = static_cast<unsigned>(p.pos); mask = 0; prime = off == 4;
    }
    const bool good = s == kOffWord[want] || (want == 2 && s == kOffWord[4]);
    (void)prime;
    if (errs.size() == 50) errs.erase(errs.begin());
    errs.push_back(good ? 0 : 1);
    unsigned n = 0;
    for (unsigned e : errs) n += e;
    if (n > 42) { sync = false; errs.clear(); return; }
    if (good) { b[want] = static_cast<u16>(reg >> 10); mask |= 1u << want; }
    else { const Rx r = receive(reg, want, fec); if (r.ok) { b[want] = static_cast<u16>(r.data); mask |= 1u << want; } }
    if (++want == 4) { want = 0; emit(); }
  }
  void emit() {
    if (mask) {
      std::string e;
      for (int i = 0; i < 4; i++) { if (i) e += " "; e += mask >> i & 1 ? hex<4>(b[i]) : std::string("----"); }
      lines.push_back(e);
    }
    mask = 0;
  }
};
struct Both {
  Options o; Out out; Ref ref; Channel* ch;
  explicit Both(bool fec) : o(baseOptions()) { o.output_type = redsea::OutputType::Hex; o.use_fec = fec; ref.fec = fec; ch = new Channel(o, 0, out.ss); }
  void bit(unsigned x) { ch->processBit(x != 0, 0); ref.bit(x); }
  void word(u32 w, int from = 25) { for (int i = from; i >= 0; i--) bit(w >> i & 1); }
  std::size_t compare() {
    const auto v = out.lines();
#ifndef SYMX
    if (v != ref.lines) { for (const auto& l : v) std::fprintf(stderr, "got      %s\n", l.c_str()); for (const auto& l : ref.lines) std::fprintf(stderr, "expected %s\n", l.c_str()); }
#endif
    check(v.size() == ref.lines.size(), "groups are received exactly while in step with the transmitter");
    if (v.size() == ref.lines.size()) for (std::size_t i = 0; i < v.size(); i++) check(seq(v[i], ref.lines[i]), "the groups received are those transmitted");
    return v.size();
  }
};
// the n-th block of the transmission: alternating type A and B groups
u32 block(unsigned n, bool b) {
  const unsigned g = n / 4 & 7, k = n % 4;
  const bool v = b && (g & 1);
  const u16 w[4] = {kPi, blk2(8, v, 0, 3, g), static_cast<u16>(v ? kPi : 0x3C00 + g * 77), static_cast<u16>(0x51A3 + g * 1031)};
  return encode(w[k], k == 2 && v ? 4 : k);
}
const u32 kBad = 0x0092481;          // beyond correction
}
SCENARIO(s_start) {
  Both r(pick("fec", 2) != 0);
  const bool b = pick("b", 2) != 0;
  const unsigned from = pick("from", 104);
  for (unsigned n = from / 26; n < 24; n++) r.word(block(n, b), n == from / 26 ? 25 - static_cast<int>(from % 26) : 25);
  check(r.compare() >= 4, "clean reception starts at once");
  symx_reached("end");
}
SCENARIO(s_pattern) {
  const unsigned n = static_cast<unsigned>(symx_param("n", 10));
  Both r(pick("fec", 2) != 0);
  const unsigned first = pick("first", 4);
  for (unsigned i = 0; i < n; i++) r.word(block(first + i, true) ^ (pick("bad", 2) ? kBad : 0));
  for (unsigned i = n; i < n + 12; i++) r.word(block(first + i, true));
  check(r.compare() >= 1, "clean reception is found");
  symx_reached("end");
}
SCENARIO(s_hold) {
  Both r(true);
  for (unsigned i = 0; i < 52; i++) r.word(block(i, true));
  const unsigned len = 1 + pick("len", 60), pat = pick("pattern", symx_param("all", 0) ? 7 : 5);
  for (unsigned i = 0; i < len; i++) {
    const bool good = pat == 1 ? i % 6 == 5 : pat == 2 ? i % 7 == 3 : pat == 3 ? i < 44 && i % 5 == 0 : pat == 5 ? i % 2 == 0 : pat == 6 ? i % 8 < 2 : false;
    r.word(block(52 + i, true) ^ (good ? 0 : pat == 4 ? 3u << 7 : kBad));
  }
  for (unsigned i = 0; i < 24; i++) r.word(block(52 + len + i, true));
  check(r.compare() >= 13 + 4, "clean reception is found again");
  symx_reached("end");
}
// bits lost or repeated
SCENARIO(s_slip) {
  Both r(true);
  for (unsigned i = 0; i < 52; i++) r.word(block(i, true));
  const unsigned slip = pick("slip", 54), bad = pick("bad", 3) * 21;
  for (unsigned i = 0; i < bad; i++) r.word(block(52 + i, true) ^ kBad);
  if (slip < 27) for (unsigned i = 0; i < slip; i++) r.bit(i & 1);
  const unsigned skip = slip < 27 ? 0 : slip - 27;
  for (unsigned i = 0; i < 76; i++) r.word(i == 0 && skip == 26 ? 0 : block(52 + bad + i, true), i == 0 ? 25 - static_cast<int>(skip) : 25);
  check(r.compare() >= 13 + 6, "clean reception is found again after a slip");
  symx_reached("end");
}
SCENARIO(s_word) {
  const bool all = symx_param("all", 0) != 0;
  Both r(all ? pick("fec", 2) != 0 : true);
  const unsigned at = all ? pick("at", 5) : 2 * pick("at", 3), from = pick("from", 3);
  for (unsigned i = 0; i < 16; i++) {
    u32 w = block(from + i, true);
    if (i == at) w = encode((w >> 10) ^ vb("bits", 8) << 8 * pick("byte", 2), (w & 0x3FF) == (encode(w >> 10, 4) & 0x3FF) ? 4 : (from + i) % 4);
    r.word(w);
  }
  check(r.compare() >= 2, "whatever is sent");
  symx_reached("end");
}
// a correct block long ago is no reason to trust the next one
SCENARIO(s_far) {
  Both r(true);
  const unsigned n = static_cast<unsigned>(symx_param("n", 16)), first = pick("first", 4), extra = pick("extra", 2);
  r.word(block(first, true));
  unsigned done = 0;
  for (unsigned p = 8; p <= n; p++) {
    while (done < 1u << p) { r.bit(0); done++; }
    if (p == n || pick("now", 2)) break;
  }
  for (unsigned i = 0; i < 26 * extra; i++) r.bit(0);
  for (unsigned i = 1 + extra; i < 14; i++) r.word(block(first + i, true));
  check(r.compare() >= 2, "clean reception after a long silence");
  symx_reached("end");
}
SCENARIO(s_lead) {
  const unsigned n = static_cast<unsigned>(symx_param("n", 6));
  Both r(true);
  const unsigned first = pick("first", 4), lead = 18 + pick("lead", 2) * 5;
  for (unsigned i = 0; i < lead; i++) r.bit(i % 3 == 0);
  for (unsigned i = 0; i < n; i++) r.bit(vb("bit", 1));
  for (unsigned i = 0; i < 16; i++) r.word(block(first + i, true));
  check(r.compare() >= 2, "whatever came before");
  symx_reached("end");
}
