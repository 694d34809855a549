// P27: a channel's output depends on nothing but its own input.
// @bound two channels, each receiving one of 16 kinds of group sequences (up to 9 groups), interleaved in any of 3 ways, with and without RBDS; the same sequence in a second decoder of the same process; bit streams of 6 groups cut into chunks at two arbitrary places, on any data stream
// @scenario s_two quick=120
// @scenario s_chunks quick=120 thorough=300 T.all=1
// @scenario s_streams quick=60
#include "bits.h"
using namespace oracle;
namespace {
std::vector<G> kind(unsigned k, u16 pi, u8 c) {
  std::vector<G> r;
  auto A = [&](unsigned t, unsigned v, unsigned low, u16 b3, u16 b4) { r.push_back(G(pi, blk2(t, v, pi & 1, 3 + (pi & 7), low), b3, b4)); };
  const u16 w = static_cast<u16>(c << 8 | c);
  switch (k) {
    case 0: for (unsigned i = 0; i < 4; i++) A(0, 0, i, static_cast<u16>(0xE200 | (pi & 7)), w); break;
    case 1: for (unsigned i = 0; i < 3; i++) A(2, 0, i, w, i == 2 ? static_cast<u16>(c << 8 | 0x0D) : w); break;
    case 2: A(3, 0, 22, 0, 0x4BD7); for (unsigned i = 0; i < 2; i++) A(2, 0, i, w, i ? 0x0D0D : w); A(11, 0, 24, 0x2004, 0x1000); break;
    case 3: A(3, 0, 22, 1, 0x6552); for (unsigned i = 0; i < 2; i++) A(11, 0, i, w, i ? 0x0D0D : w); break;
    case 4: for (unsigned i = 0; i < 2; i++) A(10, 0, i, w, w); break;
    case 5: for (unsigned i = 0; i < 2; i++) A(15, 0, i, w, i ? 0x0D0D : w); break;
    case 6: for (unsigned i = 0; i < 4; i++) A(14, 0, i, w, 0x6300); break;
    case 7: for (unsigned i = 0; i < 2; i++) A(14, 0, 4, i ? 0x0102 : static_cast<u16>(0xE300 | (pi & 7)), 0x6300); break;
    case 8: for (unsigned i = 0; i < 3; i++) A(5, 0, i, w, i == 2 ? 0x0D0D : w); break;
    case 9: A(3, 0, 16, 0x0064, 0xCD46); A(8, 0, 0, 0x4000, 0x1234); A(8, 0, 9, 0x0001, 0x4567); break;
    case 10: A(1, 0, 0, 0x00E1, 0x0841); A(1, 0, 0, 0x3009, 0x0841); break;
    case 11: A(3, 0, 12, 0x1234, 0xABCD); A(6, 0, 3, w, w); break;
    case 12: A(4, 0, 1, static_cast<u16>(0xCAF0 | (pi & 7)), 0x1840); break;
    case 13: A(3, 0, 22, 0, 0x0093); A(11, 0, 1, w, w); break;
    case 14: A(9, 0, 0, w, w); A(7, 0, 0, w, w); A(13, 0, 0, w, w); break;
    default: A(0, 1, 0, pi, w); r.back().mask = 11; A(2, 1, 0, pi, w); A(2, 1, 1, pi, 0x0D0D); break;
  }
  return r;
}
std::vector<J> alone(const Options& o, const std::vector<G>& s, u16 pi) {
  Dec d(o, pi);
  std::vector<J> r;
  for (const auto& g : s) for (auto& j : d.feed(g)) r.push_back(j);
  return r;
}
void same(const std::vector<J>& a, const std::vector<J>& b, const char* m) {
  check(a.size() == b.size(), m);
  if (a.size() == b.size()) for (std::size_t i = 0; i < a.size(); i++) expectJson(a[i], b[i], m);
}
}
SCENARIO(s_two) {
  Options o = baseOptions();
  o.rbds = pick("rbds", 2) != 0;
  const u16 p = 0x6201, q = pick("samepi", 2) ? p : 0x1E36;
  const u8 x = v8("x"), y = v8("y");
  symx_assume((x >= 'a') & (x <= 'z')); symx_assume((y >= 'a') & (y <= 'z'));
  const auto a = kind(pick("a", 16), p, x), b = kind(pick("b", 16), q, y);
  const auto ea = alone(o, a, p);
  Dec d(o, p), e(o, q);
  std::vector<J> ga, gb;
  const unsigned how = pick("how", 3);
  std::size_t i = 0, j = 0;
  auto fa = [&]() { for (auto& x : d.feed(a[i])) ga.push_back(x); i++; };
  auto fb = [&]() { for (auto& x : e.feed(b[j])) gb.push_back(x); j++; };
  if (how == 1) while (j < b.size()) fb();
  while (i < a.size() || j < b.size()) {
    if (j < b.size()) fb();
    if (i < a.size()) fa();
    if (how == 2 && i < a.size()) fa();
  }
  same(ga, ea, "a channel is not influenced by another one");
  same(gb, alone(o, b, q), "a decoder starts the same however often the process has decoded before");
  symx_reached("end");
}
namespace {
std::vector<int> stream6(unsigned v) {
  std::vector<int> r;
  for (unsigned g = 0; g < 6; g++) {
    const u16 b[4] = {0x6201, blk2(0, 1, 0, 3, g & 3), 0x6201, static_cast<u16>(0x4142 + g * 0x101)};
    for (unsigned k = 0; k < 4; k++) { u32 w = encode(b[k], k == 2 ? 4 : k); if (v && g == 4 && k == v) w ^= 0x0092481; for (int i = 25; i >= 0; i--) r.push_back(static_cast<int>(w >> i & 1)); }
  }
  return r;
}
}
SCENARIO(s_chunks) {
  const bool all = symx_param("all", 0) != 0;
  const unsigned v = pick("damage", 4), stream = pick("stream", 2) * 2;
  const auto bits = stream6(v);
  Options o = baseOptions();
  o.show_raw = true;
  Dec d(o), e(o);
  // on data streams other than 0 the station is known from stream 0
  if (stream) for (int b : stream6(0)) { d.ch.processBit(b != 0, 0); e.ch.processBit(b != 0, 0); }
  for (int b : bits) e.ch.processBit(b != 0, stream);
  const std::size_t n = bits.size();
  static const unsigned len[] = {0, 1, 25, 26, 27, 104, 200, 400};
  const std::size_t c1 = all ? pick("cut", 625) : (pick("cut", 208) * 3) % 625, c2 = std::min(n, c1 + len[pick("len", 8)]);
  const std::size_t cut[4] = {0, c1, c2, n};
  for (int i = 0; i < 3; i++) {
    redsea::BitBuffer b;
    b.bits[stream].assign(bits.begin() + static_cast<long>(cut[i]), bits.begin() + static_cast<long>(cut[i + 1]));
    d.ch.processBits(b, stream);
  }
  same(d.out.json(), e.out.json(), "how the bits are cut into chunks makes no difference");
  symx_reached("end");
}
// bits on one data stream do not disturb another one
SCENARIO(s_streams) {
  Options o = baseOptions();
  o.show_raw = true;
  o.streams = true;
  const unsigned other = 1 + pick("other", 3), noise = pick("noise", 3);
  const auto bits = stream6(pick("damage", 4));
  Dec d(o), e(o);
  for (int b : bits) e.ch.processBit(b != 0, 0);
  unsigned k = pick("phase", 8) * 13;
  for (int b : bits) {
    d.ch.processBit(b != 0, 0);
    if (noise == 2) d.ch.processBit((k * k >> 3 & 1) != 0, other);
    else if (noise == 1) d.ch.processBit(bits[k % bits.size()] != 0, other);
    k++;
  }
  std::vector<J> g;
  for (auto& j : d.out.json()) { const J* s = jfind(j, "stream"); if (!s || s->get<int64_t>() == 0) g.push_back(j); }
  same(g, e.out.json(), "data streams are received separately");
  symx_reached("end");
}
