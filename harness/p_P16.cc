// P16: TMC messages
// @bound single-group messages with every event code, extent, direction and location; two-group messages with every event code, every quantifier value of the 13 kinds, every start and stop time, every supplementary code, every control code; lists of up to 3 (thorough 4) fields over 2 to 5 groups; any loss of groups
// @assume quantifier values outside the standard's tables (times beyond 24 hours, frequencies outside the bands) are not judged; where a message follows an unfinished one with the same continuity index and its first group is lost, the two cannot be told apart and the result is not judged
// @scenario s_single quick=120
// @scenario s_quantifiers quick=120
// @scenario s_values quick=120
// @scenario s_times quick=120
// @scenario s_suppl quick=120
// @scenario s_control quick=120
// @scenario s_fields quick=120 thorough=500 Q.n=2 T.n=3
// @scenario s_long quick=120
// @scenario s_groups quick=120
// @scenario s_repeat quick=60
// @scenario s_loss quick=60
// @scenario s_mix quick=100
#include "tmc.h"
using namespace tmc_ref;
namespace {
void sendAll(Tmc& t, const Msg& m, unsigned ci = 1, unsigned atLeast = 2) {
  const auto v = multi(m, ci, atLeast);
  for (std::size_t i = 0; i + 1 < v.size(); i++) t.expectNothing(v[i], "nothing before the last group");
  t.expectMessage(v.back(), m, "the message, with its last group");
}
// one code for each quantifier kind
unsigned codeOf(unsigned type) { for (const Ev& e : kEv) if (e.q == type && e.textQ[0] && std::string(e.textQ).find("(Q)") != std::string::npos) return e.code; return 0; }
}
SCENARIO(s_single) {
  Tmc t;
  Msg m;
  m.dir = pick("dir", 2); m.extent = vb("extent", 3); m.loc = v16("loc");
  const unsigned duration = vb("duration", 3), divert = vb("divert", 1);
  m.code = static_cast<unsigned>(symx_concretize(vb("code", 11)));
  t.expectMessage(single(duration, divert, m.dir, m.extent, m.code, m.loc), m, "a single-group message shows event, location, direction, extent");
  symx_reached("end");
}
// every event with its quantifier
SCENARIO(s_quantifiers) {
  Tmc t;
  Msg m;
  m.loc = 77;
  m.code = static_cast<unsigned>(symx_concretize(vb("code", 11)));
  const Ev* e = ev(m.code);
  const bool five = e ? short5(e->q) : true;
  m.fields.push_back({five ? 5u : 4u, 9});      // wrong size: ignored
  m.fields.push_back({five ? 4u : 5u, 17});
  sendAll(t, m);
  symx_reached("end");
}
// every value of each kind of quantifier
SCENARIO(s_values) {
  Tmc t;
  const unsigned type = pick("type", 13);
  Msg m;
  m.code = codeOf(type);
  const unsigned q = short5(type) ? vb("q5", 5) : v8("q8");
  if (type == 7) { symx_assume(q >= 1); symx_assume(q <= 144); }
  if (type == 11) { symx_assume(q >= 1); symx_assume(q <= 204); }
  if (type == 12) { symx_assume(q >= 1); symx_assume(q <= 135); }
  m.fields.push_back({short5(type) ? 4u : 5u, static_cast<unsigned>(symx_concretize(q))});
  sendAll(t, m);
  symx_reached("end");
}
SCENARIO(s_times) {
  Tmc t;
  Msg m;
  m.code = 701;
  const unsigned stop = pick("stop", 2), v = static_cast<unsigned>(symx_concretize(v8("time")));
  m.fields.push_back({stop ? 8u : 7u, v});
  m.fields.push_back({stop ? 7u : 8u, 130});
  sendAll(t, m);
  symx_reached("end");
}
SCENARIO(s_suppl) {
  Tmc t;
  Msg m;
  m.code = pick("event", 2) ? 701 : 3;          // known, unknown
  m.fields.push_back({6, static_cast<unsigned>(symx_concretize(v8("code")))});
  if (pick("two", 2)) m.fields.push_back({6, 4});
  sendAll(t, m);
  symx_reached("end");
}
// control codes modify the event's defaults
SCENARIO(s_control) {
  Tmc t;
  Msg m;
  static const u16 codes[] = {701, 1, 980, 39};
  m.code = codes[pick("event", 4)]; m.dir = pick("dir", 2); m.extent = 5;
  for (unsigned i = 0; i < 3; i++) m.fields.push_back({1, pick("control", 8)});
  sendAll(t, m);
  symx_reached("end");
}
// lists of fields; each label with a few values
SCENARIO(s_fields) {
  static const u16 vals[15][2] = {{3, 7}, {6, 5}, {4, 31}, {10, 31}, {12, 1}, {20, 200}, {4, 201}, {40, 250}, {200, 97}, {401, 2}, {0x8001, 77}, {12, 65535}, {5, 4096}, {1234, 1}, {0, 0}};
  Tmc t;
  Msg m;
  const unsigned n = static_cast<unsigned>(symx_param("n", 2));
  m.code = pick("quantified", 2) ? 401 : 701;
  m.loc = v16("loc");
  const unsigned shift = pick("shift", 3);      // moves the fields across group boundaries
  for (unsigned i = 0; i < shift; i++) m.fields.push_back({2, 7});
  for (unsigned i = 0; i < n; i++) { const unsigned l = pick("label", 15); m.fields.push_back({l, vals[l][i & 1]}); }
  m.fields.push_back({9, 501});
  m.fields.push_back({6, 4});
  sendAll(t, m, 1 + shift, 2 + pick("longer", 2));
  symx_reached("end");
}
// long messages: any alignment, several events with quantifiers; arbitrary diversion points
SCENARIO(s_long) {
  Tmc t;
  Msg m;
  m.code = 401; m.loc = v16("loc"); m.extent = 7; m.dir = 1;
  const unsigned groups = 2 + pick("groups", 4), kind = pick("kind", 5);
  const unsigned room = 28 * (groups - 1);
  unsigned used = 0;
  auto add = [&](unsigned l, unsigned v) { if (used + 4 + width(l) <= room) { m.fields.push_back({l, v}); used += 4 + width(l); } };
  if (kind == 0) { add(4, 9); while (used + 20 <= room) add(10, v16("point")); add(1, 6); }
  else if (kind == 1) { add(9, 501); add(4, 3); add(9, 803); add(9, 1190); add(5, 20); add(6, 5); add(8, 100); }
  else if (kind == 2) { for (unsigned i = 0; i < 16; i++) add(1, i & 1 ? 7 : 6); }
  else if (kind == 3) { add(3, 16); add(2, 3); add(7, 30); add(8, 240); add(6, 7); add(6, 255); add(10, v16("point")); add(13, 9); add(6, 1); }
  else { add(14, 0); add(9, 600); add(12, 3); add(14, 0); add(9, 2047); add(11, 8); add(6, 2); }
  sendAll(t, m, 6, groups);
  symx_reached("end");
}
// losses within a message of up to five groups
SCENARIO(s_groups) {
  Tmc t;
  Msg m;
  const unsigned groups = 2 + pick("groups", 4), lost = pick("lost", 16), ci = 1 + pick("ci", 6), other = pick("other", 3);
  m.code = 401;
  for (unsigned i = 1; i < groups; i++) { m.fields.push_back({6, i}); m.fields.push_back({1, 6}); m.fields.push_back({2, 1}); }   // 12 + 7 + 9 = 28 bits
  const auto v = multi(m, ci);
  if (v.size() != groups) check(false, "harness: layout");
  if (other) t.expectNothing(user(ci % 6 + 1, static_cast<u16>(1 << 15 | 3), 99), "first group of a message that is not continued");
  bool received[5];
  for (unsigned i = 0; i < groups; i++) received[i] = i + 1 == groups || !(lost >> i & 1);
  unsigned usable = 1;
  while (usable < groups && received[usable]) usable++;
  if (!received[1]) usable = 1;
  Msg part = m;
  part.fields.clear();
  for (unsigned i = 1; i < usable; i++) for (unsigned k = 0; k < 3; k++) part.fields.push_back(m.fields[(i - 1) * 3 + k]);
  for (unsigned i = 0; i < groups; i++) {
    if (!received[i]) continue;
    if (i + 1 < groups) t.expectNothing(v[i], "nothing before the last group");
    else if (received[0]) t.expectMessage(v[i], part, "the message with what was received without gap");
    else t.expectNothing(v[i], "no message without its first group");
  }
  symx_reached("end");
}
// every group sent twice or the whole message twice; messages in succession
SCENARIO(s_repeat) {
  Tmc t;
  Msg m, q;
  m.code = 701; m.loc = v16("loc"); m.fields.push_back({6, 4}); m.fields.push_back({10, v16("point")});
  q.code = 401; q.loc = v16("loc2"); q.fields.push_back({9, 803});
  const unsigned groups = 3 + pick("groups", 3), mode = pick("mode", 3);
  const auto v = multi(m, 2, groups), w = multi(q, 3, 2 + pick("groups2", 3));
  auto send = [&](const std::vector<G>& g, const Msg& x, bool twice) {
    for (std::size_t i = 0; i < g.size(); i++) {
      const bool last = i + 1 == g.size();
      if (last) t.expectMessage(g[i], x, "the message"); else t.expectNothing(g[i], "not yet");
      if (twice) t.expectNothing(g[i], "a repeated group shows nothing");
    }
  };
  send(v, m, mode == 1);
  if (mode == 2) send(v, m, false);
  send(w, q, mode == 1);
  symx_reached("end");
}
// blocks lost: the group is not used
SCENARIO(s_loss) {
  Tmc t;
  Msg m;
  m.code = 701; m.fields.push_back({6, 4});
  const auto v = multi(m, 2);
  G s = single(0, 0, 0, 1, 401, 5), b = v[1];
  s.mask = 1 | pick("blocks", 7) << 1;          // one or more of blocks 2, 3 and 4 lost
  b.mask = s.mask;
  const J got = t.feed(s);
  expectLacks(got, {"tmc"}, "nothing from an incomplete group");
  t.expectNothing(v[0], "first");
  expectLacks(t.feed(b), {"tmc"}, "nothing from an incomplete last group");
  t.expectMessage(v[1], m, "complete with the last group received");
  symx_reached("end");
}
// a message after an unfinished one, with the same continuity index or another
SCENARIO(s_mix) {
  Tmc t;
  Msg m, q;
  m.code = 701; m.loc = 7;
  q.code = 401; q.loc = v16("loc"); q.dir = 1;
  const unsigned n1 = 2 + pick("groups", 4), n2 = 2 + pick("groups2", 4), ci2 = 2 + pick("ci", 2), got1 = pick("received", 8), got2 = pick("received2", 8), same = pick("same", 2);
  for (unsigned i = 1; i < n1; i++) { m.fields.push_back({6, 30 + i}); m.fields.push_back({1, 6}); m.fields.push_back({2, 1}); }
  for (unsigned i = 1; i < n2; i++) { q.fields.push_back({6, i}); q.fields.push_back({1, 7}); q.fields.push_back({2, 2}); }
  if (same) { m = q; }                                                      // the same message again
  const auto v = multi(m, 2), w = multi(q, ci2);
  for (std::size_t i = 0; i + 1 < v.size(); i++) if (got1 >> i & 1) t.expectNothing(v[i], "unfinished message");
  unsigned usable = 1;
  bool before[5] = {};
  if (same && ci2 == 2 && got1 & 1) for (std::size_t i = 0; i + 1 < v.size(); i++) before[i] = got1 >> i & 1;    // a repetition completes what was received
  while (usable < w.size() && (usable + 1 == w.size() || (usable < 4 && got2 >> (usable - 1) & 1) || before[usable])) usable++;
  Msg part = q;
  part.fields.assign(q.fields.begin(), q.fields.begin() + 3 * (usable - 1));
  for (unsigned i = 0; i < w.size(); i++) {
    if (i + 1 == w.size()) t.expectMessage(w[i], part, "the new message alone");
    else if (i == 0 || (got2 >> (i - 1) & 1)) t.expectNothing(w[i], "nothing before the last group");
  }
  symx_reached("end");
}
