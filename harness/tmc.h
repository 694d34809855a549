// Reference decoding of TMC messages after ISO 14819-1 and -2.
#pragma once
#include "oracle.h"
namespace tmc_ref {
using namespace oracle;
struct Ev { u16 code; const char* text; const char* textQ; u8 q; u8 both; u8 urg; u8 cls; };
const Ev kEv[] = {
#include "events.inc"
};
struct Sup { u16 code; const char* text; };
const Sup kSup[] = {
#include "suppl.inc"
};
const u16 kPi = 0x6201;
inline const Ev* ev(unsigned code) {
  std::size_t lo = 0, hi = sizeof kEv / sizeof kEv[0];
  while (lo < hi) { const std::size_t m = (lo + hi) / 2; if (kEv[m].code < code) lo = m + 1; else hi = m; }
  return lo < sizeof kEv / sizeof kEv[0] && kEv[lo].code == code ? &kEv[lo] : nullptr;
}
inline const char* sup(unsigned code) { for (const auto& s : kSup) if (s.code == code) return s.text; return nullptr; }
inline bool short5(unsigned q) { return q <= 5; }
inline std::string num(int v) { return std::to_string(v); }
inline std::string tenth(int v, const char* unit) { return num(v / 10) + "." + num(v % 10) + unit; }
// ISO 14819-2 quantifier tables; v is 1..32 for the 5 bit ones
inline std::string quantifier(unsigned type, unsigned raw) {
  const int v = static_cast<int>(short5(type) && raw == 0 ? 32 : raw);
  switch (type) {
    case 0: return num(v <= 28 ? v : v == 29 ? 30 : v == 30 ? 32 : v == 31 ? 34 : 36);
    case 1: return num(v <= 4 ? v : v <= 14 ? 10 * (v - 4) : 150 + 50 * (v - 15));
    case 2: return "less than " + num(10 * v) + " metres";
    case 3: return num(v == 32 ? 0 : 5 * v) + " %";
    case 4: return "of up to " + num(5 * v) + " km/h";
    case 5: return v <= 10 ? "of up to " + num(5 * v) + " minutes" : v <= 22 ? "of up to " + num(v - 10) + " hours" : "of up to " + num(18 + 6 * (v - 23)) + " hours";
    case 6: return num(v - 51) + " degrees Celsius";
    case 7: return d2(static_cast<unsigned>((v - 1) / 6)) + ":" + d2(static_cast<unsigned>((v - 1) % 6 * 10));
    case 8: return tenth(v <= 100 ? v : 100 + 5 * (v - 100), " tonnes");
    case 9: return tenth(v <= 100 ? v : 100 + 5 * (v - 100), " metres");
    case 10: return "of up to " + num(v) + " millimetres";
    case 11: return tenth(875 + v, " MHz");
    default: return num(v <= 15 ? 153 + 9 * (v - 1) : 531 + 9 * (v - 16)) + " kHz";
  }
}
inline bool judged(unsigned type, unsigned raw) {    // values the tables define
  if (type == 7) return raw >= 1 && raw <= 144;
  if (type == 11) return raw >= 1 && raw <= 204;
  if (type == 12) return raw >= 1 && raw <= 135;
  return true;
}
inline std::string timeText(unsigned v) {
  static const char* const months[12] = {"January", "February", "March", "April", "May", "June", "July", "August", "September", "October", "November", "December"};
  if (v < 96) return d2(v / 4) + ":" + d2(v % 4 * 15);
  if (v <= 200) {
    const unsigned days = (v - 96) / 24;
    return (days == 0 ? std::string() : days == 1 ? std::string("after 1 day ") : "after " + num(static_cast<int>(days)) + " days ") + "at " + d2((v - 96) % 24) + ":00";
  }
  if (v <= 231) return "day " + num(static_cast<int>(v - 200)) + " of the month";
  return std::string((v & 1) ? "end of " : "mid-") + months[(v - 232) / 2];
}
inline std::string sentence(std::string s) { if (!s.empty() && s[0] >= 'a' && s[0] <= 'z') s[0] = static_cast<char>(s[0] - 32); return s; }
struct Field { unsigned label, data; };
inline unsigned width(unsigned label) { static const u8 w[16] = {3, 3, 5, 5, 5, 8, 8, 8, 8, 11, 16, 16, 16, 16, 0, 0}; return w[label]; }
struct Msg {
  unsigned code = 0, dir = 0, extent = 0; u16 loc = 0;
  std::vector<Field> fields;
  bool encrypted = false, known = true; u16 plain = 0;
};
inline J message(const Msg& m) {
  J e;
  std::vector<unsigned> codes{m.code}, sups, div;
  std::vector<int> quant{-1};
  unsigned urg = 0, both = 0, extent = m.extent;
  int speed = -1, start = -1, stop = -1;
  const Ev* first = ev(m.code);
  if (first) { urg = first->urg; both = first->both; }
  for (const Field& f : m.fields) {
    if (f.label == 0 && f.data == 0) break;
    if (f.label == 1) {
      switch (f.data) {
        case 0: urg = (urg + 1) % 3; break;
        case 1: urg = (urg + 2) % 3; break;
        case 2: both ^= 1; break;
        case 6: extent += 8; break;
        case 7: extent += 16; break;
        default: break;
      }
    } else if (f.label == 3) speed = static_cast<int>(5 * f.data);
    else if (f.label == 4 || f.label == 5) {
      const Ev* x = ev(codes.back());
      if (quant.back() < 0 && x && x->textQ[0] && short5(x->q) == (f.label == 4)) quant.back() = static_cast<int>(f.data);
    } else if (f.label == 6) sups.push_back(f.data);
    else if (f.label == 7) start = static_cast<int>(f.data);
    else if (f.label == 8) stop = static_cast<int>(f.data);
    else if (f.label == 9) { codes.push_back(f.data); quant.push_back(-1); }
    else if (f.label == 10) div.push_back(f.data);
  }
  std::string text;
  e["event_codes"] = codes;
  if (!sups.empty()) e["supplementary_codes"] = sups;
  for (std::size_t i = 0; i < codes.size(); i++) {
    const Ev* x = ev(codes[i]);
    if (!x) continue;
    std::string s = x->text;
    if (quant[i] >= 0) {
      s = x->textQ;
      const std::string q = quantifier(x->q, static_cast<unsigned>(quant[i]));
      for (std::size_t p = s.find("(Q)"); p != std::string::npos; p = s.find("(Q)", p + q.size())) s.replace(p, 3, q);
    }
    text += (text.empty() ? "" : " ") + sentence(s) + ".";
  }
  for (unsigned s : sups) if (const char* t = sup(s)) text += (text.empty() ? "" : " ") + sentence(t) + ".";
  if (first) e["update_class"] = static_cast<unsigned>(first->cls);
  if (!text.empty()) e["description"] = text;
  if (!div.empty()) e["diversion_route"] = div;
  if (speed >= 0) e["speed_limit"] = num(speed) + " km/h";
  if (m.encrypted) e["encrypted_location"] = static_cast<unsigned>(m.loc);
  if (!m.encrypted) e["location"] = static_cast<unsigned>(m.loc); else if (m.known) e["location"] = static_cast<unsigned>(m.plain);
  e["direction"] = both ? "both" : "single";
  e["extent"] = (m.dir ? "-" : "+") + num(static_cast<int>(extent));
  if (start >= 0) e["starts"] = timeText(static_cast<unsigned>(start));
  if (stop >= 0) e["until"] = timeText(static_cast<unsigned>(stop));
  static const char* const urgs[3] = {"none", "U", "X"};
  e["urgency"] = urgs[urg];
  return e;
}
inline G user(unsigned x, u16 y, u16 z) { return G(kPi, blk2(8, 0, 0, 1, x), y, z); }
inline G single(unsigned duration, unsigned divert, unsigned dir, unsigned extent, unsigned code, u16 loc) {
  return user(8 | duration, static_cast<u16>(divert << 15 | dir << 14 | extent << 11 | code), loc);
}
// the groups of a multi-group message; total groups n = 2..5 or as many as needed
inline std::vector<G> multi(const Msg& m, unsigned ci, unsigned atLeast = 2) {
  u8 bits[112] = {};
  unsigned n = 0;
  for (const Field& f : m.fields) {
    for (int i = 3; i >= 0; i--) bits[n++] = static_cast<u8>(f.label >> i & 1);
    for (int i = static_cast<int>(width(f.label)) - 1; i >= 0; i--) bits[n++] = static_cast<u8>(f.data >> i & 1);
  }
  unsigned extra = (n + 27) / 28;
  if (extra + 1 < atLeast) extra = atLeast - 1;
  if (extra == 0) extra = 1;
  std::vector<G> v;
  v.push_back(user(ci, static_cast<u16>(1 << 15 | m.dir << 14 | m.extent << 11 | m.code), m.loc));
  for (unsigned k = 0; k < extra; k++) {
    u32 w = 0;
    for (unsigned i = 0; i < 28; i++) w = w << 1 | bits[k * 28 + i];
    v.push_back(user(ci, static_cast<u16>((k == 0 ? 1 << 14 : 0) | (extra - 1 - k) << 12 | w >> 16), static_cast<u16>(w)));
  }
  return v;
}
struct Tmc {
  Dec d;
  explicit Tmc(unsigned ltn = 9, const Options& o = baseOptions()) : d(o, kPi) { d.feed(G(kPi, blk2(3, 0, 0, 1, 16), static_cast<u16>(ltn << 6), 0xCD46)); }
  J feed(const G& g) { return d.one(g, "one line per group"); }
  void expectMessage(const G& g, const Msg& m, const char* what) {
    J e = basics(kPi, g, false, 8, 0);
    e["tmc"]["message"] = message(m);
    expectJson(feed(g), e, what);
  }
  void expectNothing(const G& g, const char* what) { expectJson(feed(g), basics(kPi, g, false, 8, 0), what); }
};
}
