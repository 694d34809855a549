// P23: the block error rate shown is the share of erroneous blocks over the last 12 groups.
// @bound groups: three runs of groups, each of any length up to 13 (the first up to 3 or 12/13) with any number of lost blocks; bit streams: 12 clean groups, then up to 14 groups in two runs with any pattern of clean, correctable and uncorrectable blocks
// @scenario s_groups quick=120 thorough=800 T.all=1
// @scenario s_bits quick=120
// @scenario s_off quick=30
#include "oracle.h"
#include "bits.h"
using namespace oracle;
namespace {
const u16 kPi = 0x6201;
unsigned rate(const std::vector<unsigned>& e) {        // percent of 48 blocks, rounded
  unsigned s = 0;
  for (std::size_t i = e.size() > 12 ? e.size() - 12 : 0; i < e.size(); i++) s += e[i];
  return (200 * s + 48) / 96;
}
void look(const std::vector<J>& v, const std::vector<unsigned>& e) {
  check(v.size() <= 1, "at most one line per group");
  if (v.size() != 1) return;
  const J* x = jfind(v[0], "bler");
  check(x && x->is_number_integer(), "the block error rate is shown when requested");
  if (x && x->is_number_integer()) {
#ifndef SYMX
    if (x->get<int64_t>() != rate(e)) std::fprintf(stderr, "%s, expected bler %u\n", v[0].dump().c_str(), rate(e));
#endif
    check(x->get<int64_t>() == static_cast<int64_t>(rate(e)), "the block error rate is the share of erroneous blocks in the last 12 groups");
  }
  symx_reached("shown");
}
}
SCENARIO(s_groups) {
  Options o = baseOptions();
  o.bler = true;
  Dec d(o, kPi);
  std::vector<unsigned> e;
  static const unsigned masks[] = {15, 14, 13, 11, 7, 12, 10, 9, 6, 5, 3, 1, 2, 0};
  static const unsigned first[] = {0, 1, 5, 12, 13}, third[] = {1, 2, 11};
  const bool all = symx_param("all", 0) != 0;
  for (unsigned run = 0; run < 3; run++) {
    const unsigned n = run == 0 ? first[pick("first", 5)] : run == 1 ? pick("second", 14) : all ? 1 + pick("third", 12) : third[pick("third", 3)];
    const unsigned mask = run == 1 ? masks[pick("mask", 14)] : masks[(run == 0 ? 4u : 0u) + pick("mask", all ? 5 : 3)];
    unsigned errs = 4;
    for (unsigned i = 0; i < 4; i++) errs -= mask >> i & 1;
    for (unsigned i = 0; i < n; i++) {
      const G g(kPi, blk2(8, 0, 0, 1, 0), v16("b3"), v16("b4"), mask);
      const auto v = d.feed(g);
      e.push_back(errs);
      look(v, e);
    }
  }
  symx_reached("end");
}
SCENARIO(s_bits) {
  Options o = baseOptions();
  o.bler = true;
  o.use_fec = pick("fec", 2) != 0;
  Dec d(o);
  std::vector<unsigned> e;
  const u16 b[4] = {kPi, blk2(8, 0, 0, 1, 0), 0x1234, 0x5678};
  for (int i = 0; i < 16; i++) pushGroup(d.ch, b);
  d.out.json();
  for (int i = 0; i < 12; i++) e.push_back(0);
  static const u32 damage[] = {0, 1u << 25, 3u << 4, 0x00012481};      // none, one bit, two adjacent bits, beyond correction
  unsigned budget = 40;
  for (unsigned run = 0; run < 2; run++) {
    const unsigned n = run == 0 ? 1 + pick("len", 12) : 1 + pick("len2", 3);
    const unsigned d1 = pick("at1", 4), d2 = pick("at2", 4), at = pick("where", 2);
    u32 w[4];
    for (unsigned k = 0; k < 4; k++) w[k] = encode(b[k], k);
    w[2 * at] ^= damage[d1]; w[2 * at + 1] ^= damage[d2];
    const unsigned errs = (d1 != 0) + (d2 != 0);
    for (unsigned i = 0; i < n; i++) {
      if (errs > budget) symx_end();
      budget -= errs;
      for (unsigned k = 0; k < 4; k++) pushWord(d.ch, w[k]);
      e.push_back(errs);
      look(d.out.json(), e);
    }
  }
  symx_reached("end");
}
SCENARIO(s_off) {
  Options o = baseOptions();
  Dec d(o, kPi);
  const auto v = d.feed(G(kPi, blk2(pick("type", 16), pick("ver", 2), 0, 1, 0), 0x4142, 0x4344));
  for (const auto& j : v) expectLacks(j, {"bler"}, "no block error rate unless requested");
  symx_reached("end");
}
