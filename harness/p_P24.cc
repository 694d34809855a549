// P24: reception times.
// @bound groups: for one group every hour, minute, second and millisecond (one arbitrary at a time); sequences of n groups (and of n chunks of bits) with clock readings from 7 instants in any order; chunks of bits: a group ending at any of the bits 1..600 before the end of its chunk; time zones with and without summer time
// @assume results of 1 to 63 characters
// @scenario s_clock quick=120
// @scenario s_order quick=120 thorough=600 Q.n=4 T.n=5
// @scenario s_chunk quick=120
// @scenario s_chunks quick=120 thorough=600 Q.n=3 T.n=4
// @scenario s_main quick=60
// @scenario s_main_order quick=120
// @scenario s_off quick=30
#include "cli.h"
#include "bits.h"
using namespace oracle;
namespace {
const u16 kPi = 0x6201;
const long kDay = 1700006400;            // 2023-11-15 00:00:00 UTC
long g_now = 0;
long nowFn() { return g_now; }
const G kG(kPi, blk2(8, 0, 0, 1, 0), 0x1234, 0x5678);
std::string stamp(long ms) {              // milliseconds since kDay, 0 <= ms < one day
  const unsigned s = static_cast<unsigned>(ms / 1000), f = static_cast<unsigned>(ms % 1000);
  return "15T" + d2(s / 3600) + ":" + d2(s / 60 % 60) + ":" + d2(s % 60) + "." + d2(f / 10);
}
std::string rxTime(const J& j) {
  const J* x = jfind(j, "rx_time");
  check(x && x->is_string(), "the reception time is shown when requested");
  return x && x->is_string() ? x->get_ref<const std::string&>() : std::string();
}
Options stampOptions() { Options o = baseOptions(); o.timestamp = true; o.time_format = "%dT%H:%M:%S.%f"; return o; }
std::vector<int> groupBits() {
  std::vector<int> r;
  for (unsigned k = 0; k < 4; k++) { const u32 w = encode(kG.b[k], k); for (int i = 25; i >= 0; i--) r.push_back(static_cast<int>(w >> i & 1)); }
  return r;
}
typedef std::chrono::time_point<std::chrono::system_clock> TP;
TP at(long ms) { return TP(std::chrono::milliseconds(kDay * 1000 + ms)); }
void pushGroups(Dec& d, int n, long ms) {   // each in a chunk of its own
  for (int i = 0; i < n; i++) { redsea::BitBuffer b; b.time_received = at(ms); b.bits[0] = groupBits(); d.ch.processBits(b, 0); }
}
}
namespace { unsigned any(const char* n, unsigned k) { return pick(n, k); } }
SCENARIO(s_clock) {
  symx_set_clock(nowFn);
  Options o = stampOptions();
  // one part of the reading arbitrary, the others from a few values
  static const unsigned hs[] = {0, 23}, ms[] = {29, 59}, ss[] = {0, 59}, fs[] = {9, 990};
  const unsigned part = pick("part", 4);
  const unsigned h = part == 0 ? any("h", 24) : hs[pick("h", 2)], m = part == 1 ? any("m", 60) : ms[pick("m", 2)], s = part == 2 ? any("s", 60) : ss[pick("s", 2)], f = part == 3 ? any("ms", 1000) : fs[pick("ms", 2)];
  const unsigned which = pick("zone", 4);
  static const int zone[] = {0, 3600, 3600, -12600};
  symx_set_tz(zone[which], which == 2);
  const unsigned hl = which == 1 || which == 2 ? 10 : which == 3 ? 12 : h;       // hours fixed where the offset matters
  g_now = (kDay + static_cast<long>(hl) * 3600 + static_cast<long>(m) * 60 + s) * 1000000000L + static_cast<long>(f) * 1000000L + 999999;
  Dec d(o, kPi);
  const J j = d.one(kG, "one line per group");
  unsigned eh = hl, em = m;
  if (which == 1 || which == 2) eh = 11;
  if (which == 3) { eh = m >= 30 ? 9u : 8u; em = m >= 30 ? m - 30 : m + 30; }
  std::string e = "15T" + d2(eh) + ":" + d2(em) + ":" + d2(s) + "." + d2(f / 10);
  expectStr(rxTime(j), e, "the time shown is the clock reading, in local time");
  symx_reached("end");
}
SCENARIO(s_order) {
  symx_set_clock(nowFn);
  const long when[] = {1000, 990, 1010, 1001, 500, 3600000, 86399999};
  const unsigned n = static_cast<unsigned>(symx_param("n", 4));
  Dec d(stampOptions(), kPi);
  long latest = 0;
  for (unsigned i = 0; i < n; i++) {
    const long t = when[pick("when", 7)];
    g_now = kDay * 1000000000L + t * 1000000L;
    if (t > latest) latest = t;
    expectStr(rxTime(d.one(kG, "one line per group")), stamp(latest), "times are clock readings and never run backwards");
  }
  symx_reached("end");
}
// chunks of bits carry the time of their last bit
SCENARIO(s_chunk) {
  Dec d(stampOptions());
  static const long ts[] = {3600000, 50000123, 7199995};
  const long T = ts[pick("T", 3)];
  pushGroups(d, 5, T - 2000);
  d.out.json();
  const unsigned after = pick("after", 600);
  redsea::BitBuffer b;
  b.time_received = at(T);
  b.bits[0] = groupBits();
  for (unsigned i = 0; i < after; i++) b.bits[0].push_back(0);
  d.ch.processBits(b, 0);
  const auto v = d.out.json();
  check(v.size() >= 1, "the group is shown");
  if (v.empty()) return;
  const long us = static_cast<long>(after) * 16000000 / 19000;         // 1/1187.5 s each
  const long lo = T - (us + 999) / 1000, hi = T - us / 1000;
  const std::string s = rxTime(v[0]);
  check(seq(s, stamp(lo)) | seq(s, stamp(hi)), "the time of a group is that of its last bit");
  symx_reached("end");
}
SCENARIO(s_chunks) {
  static const long when[] = {3600000, 3600050, 3600100, 3599000, 3650000};
  Dec d(stampOptions());
  const unsigned n = static_cast<unsigned>(symx_param("n", 3));
  pushGroups(d, 5, 3500000);
  d.out.json();
  const auto gb = groupBits();
  std::vector<int> pending;
  long latest = 3500000;
  for (unsigned i = 0; i < n; i++) {
    static const unsigned len[] = {104, 208, 150, 30, 1};
    const long T = when[pick("when", 5)];
    const unsigned k = len[pick("len", 5)];
    static std::size_t pos;
    if (i == 0) pos = 0;
    redsea::BitBuffer b;
    b.time_received = at(T);
    std::vector<long> ends;
    for (unsigned q = 0; q < k; q++) { b.bits[0].push_back(gb[pos % 104]); if (pos % 104 == 103) ends.push_back(static_cast<long>(k - 1 - q)); pos++; }
    d.ch.processBits(b, 0);
    const auto v = d.out.json();
    check(v.size() == ends.size(), "one line per group");
    if (v.size() != ends.size()) return;
    for (std::size_t q = 0; q < ends.size(); q++) {
      const long us = ends[q] * 16000000 / 19000;
      const long lo = T - (us + 999) / 1000, hi = T - us / 1000;
      const std::string s = rxTime(v[q]);
      const long e1 = lo > latest ? lo : latest, e2 = hi > latest ? hi : latest;
#ifndef SYMX
      if (!seq(s, stamp(e1)) && !seq(s, stamp(e2))) std::fprintf(stderr, "got %s, expected %s or %s\n", s.c_str(), stamp(e1).c_str(), stamp(e2).c_str());
#endif
      check(seq(s, stamp(e1)) | seq(s, stamp(e2)), "times are those of the groups' last bits and never run backwards");
      latest = e2;
    }
  }
  symx_reached("end");
}
// any format, through the program
SCENARIO(s_main) {
  symx_set_clock(nowFn);
  g_now = (kDay + 45296) * 1000000000L + 789000000L;       // 12:34:56.789
  static const struct { const char* f; const char* e; } fm[] = {{"%Y-%m-%dT%H:%M:%S%z", "2023-11-15T12:34:56+0000"}, {"%H:%M:%S.%f", "12:34:56.78"}, {"%f", "78"}, {"x%fy", "x78y"}, {"at %M", "at 34"}, {"%H%M%S", "123456"}, {"%Y", "2023"}, {"%d.%m.%Y %f", "15.11.2023 78"}, {"%f %S %f", "78 56 78"}, {"%%f", "%f"}, {"%%%f%%", "%78%"}, {"%f%f", "7878"}};
  const auto& k = fm[pick("format", 12)];
  static const char* const in = "6201 8020 1234 5678\n6201 8020 1234 5678\n6201 8020 1234 5678\n";
  Cli c;
  runCli(c, {"-h", pick("long", 2) ? "--timestamp" : "-t", k.f}, in);
  const auto v = splitLines(c.out);
  check(v.size() == 1, "one line");
  J j;
  if (v.size() == 1 && parseLine(v[0], j)) expectStr(rxTime(j), k.e, "the time is shown in the requested format");
  symx_reached("end");
}
// the clock may be set back at any time, whatever the input and output format
namespace {
int g_calls = 0;
long jumpingFn() { static const long w[] = {5000, 4000, 6000}; g_calls++; return kDay * 1000000000L + w[g_calls <= 7 ? pick("reading", g_calls == 1 ? 1 : 3) : 0] * 1000000L; }
}
SCENARIO(s_main_order) {
  g_calls = 0;
  symx_set_clock(jumpingFn);
  const unsigned fmt = pick("input", 3);
  const bool hex = pick("output", 2);
  std::string in;
  for (unsigned i = 0; i < 5; i++) {
    if (fmt == 0) in += "6201 8020 1234 5678\n";
    else if (fmt == 1) in += "P6201\nR80201234567800\n";
    else for (int b : groupBits()) in += b ? '1' : '0';
  }
  static const char* const names[] = {"hex", "tef", "bits"};
  Cli c;
  runCli(c, {"-i", names[fmt], "-o", hex ? "hex" : "json", "-t", "%H:%M:%S.%f"}, in.c_str());
  std::string last;
  unsigned n = 0;
  for (const auto& l : splitLines(c.out)) {
    std::string t;
    if (hex) t = l.size() >= 31 ? l.substr(20) : "";
    else { J j; if (!parseLine(l, j)) return; t = rxTime(j); }
    check(t.size() == 11, "every line shows its time");
    check(!(t < last), "times never run backwards, whatever the clock does");
    last = t;
    n++;
  }
  check(n >= (fmt == 2 ? 2u : 3u), "groups are shown");
  symx_reached("end");
}
SCENARIO(s_off) {
  Dec d(baseOptions(), kPi);
  for (const auto& j : d.feed(G(kPi, blk2(pick("type", 16), pick("ver", 2), 0, 1, 0), 0x4142, 0x4344))) expectLacks(j, {"rx_time"}, "no reception time unless requested");
  symx_reached("end");
}
