// Common harness code. The same source is compiled to bitcode for the symbolic
// executor (SYMX defined) and natively for replaying counterexamples.
#pragma once
#include <array>
#include <chrono>
#include <cstdint>
#include <cstring>
#include <cstdio>
#include <iostream>
#include <sstream>
#include <string>
#include <vector>
#include <nlohmann/json.hpp>
#include "src/block_sync.hh"
#include "src/channel.hh"
#include "src/groups.hh"
#include "src/io/bitbuffer.hh"
#include "src/options.hh"
#include "symx.h"
#define SCENARIO(name) extern "C" __attribute__((used)) void name()
typedef nlohmann::ordered_json J;
typedef uint8_t u8; typedef uint16_t u16; typedef uint32_t u32; typedef uint64_t u64;
using redsea::Channel; using redsea::Group; using redsea::Block; using redsea::Options; using redsea::Offset;

inline u16 v16(const char* n) { return static_cast<u16>(symx_var(n, 16)); }
inline u8 v8(const char* n) { return static_cast<u8>(symx_var(n, 8)); }
inline bool vbit(const char* n) { return symx_var(n, 1) != 0; }
inline unsigned vb(const char* n, int w) { return static_cast<unsigned>(symx_var(n, w)); }
inline unsigned pick(const char* n, unsigned k) { return static_cast<unsigned>(symx_choose(n, k)); }
inline void check(bool c, const char* m) { symx_assert(c, m); }

// ---- groups --------------------------------------------------------------------
struct G {
  u16 b[4] = {0, 0, 0, 0};
  unsigned mask = 15;           // bit i: block i+1 received
  bool offsets = false;         // offset words known (bit-stream input) or not (hex input)
  G() {}
  G(u16 b1, u16 b2, u16 b3, u16 b4, unsigned m = 15) : mask(m) { b[0] = b1; b[1] = b2; b[2] = b3; b[3] = b4; }
  bool has(int i) const { return (mask >> (i - 1)) & 1; }
};
inline Group mkGroup(const G& g) {
  Group r;
  if (!g.offsets) r.disableOffsets();
  const bool cp = g.offsets && (g.b[1] >> 11 & 1);
  for (int i = 0; i < 4; i++) {
    if (!(g.mask >> i & 1)) continue;
    Block blk;
    blk.data = g.b[i];
    blk.is_received = true;
    if (g.offsets) blk.offset = i == 0 ? Offset::A : i == 1 ? Offset::B : i == 2 ? (cp ? Offset::Cprime : Offset::C) : Offset::D;
    r.setBlock(static_cast<redsea::eBlockNumber>(i), blk);
  }
  return r;
}
inline u16 blk2(unsigned type, unsigned ver, unsigned tp, unsigned pty, unsigned low5) {
  return static_cast<u16>(type << 12 | ver << 11 | (tp & 1) << 10 | (pty & 31) << 5 | (low5 & 31));
}
// ---- output lines ----------------------------------------------------------------
// Splits what was written into lines; each must be exactly one complete JSON object.
inline bool parseLine(const std::string& s, J& out) {
#ifdef SYMX
  if (s.size() != 7 || s[0] != '\x01' || s[6] != '\x01') return false;
  unsigned idx = 0;
  for (int i = 1; i < 6; i++) idx = idx * 16u + static_cast<unsigned>(s[i] - 'A');
  auto& reg = symx_json_reg<J>();
  if (idx >= reg.size()) return false;
  out = reg[idx];
  return out.is_object();
#else
  out = J::parse(s, nullptr, false);
  return !out.is_discarded() && out.is_object();
#endif
}
struct Out {
  std::ostringstream ss;
  std::vector<std::string> lines() {
    std::vector<std::string> r;
    const std::string s = ss.str();
    std::size_t a = 0;
    while (a < s.size()) {
      std::size_t e = a;
      while (e < s.size() && s[e] != '\n') e++;
      check(e < s.size(), "every output line is terminated");
      r.push_back(s.substr(a, e - a));
      a = e + 1;
    }
    return r;
  }
  std::vector<J> json() {
    std::vector<J> r;
    for (const auto& l : lines()) {
      J j;
      const bool ok = parseLine(l, j);
      check(ok, "every output line is one complete valid JSON object");
      if (ok) r.push_back(j);
    }
    ss.str(std::string());
    return r;
  }
};
// ---- comparison --------------------------------------------------------------------
inline unsigned seq(const std::string& a, const std::string& b) {  // branch-free on contents
  if (a.size() != b.size()) return 0;
  unsigned d = 0;
  for (std::size_t i = 0; i < a.size(); i++) d |= static_cast<unsigned char>(a[i]) ^ static_cast<unsigned char>(b[i]);
  return d == 0;
}
inline const J* jfind(const J& o, const std::string& k) {
  if (!o.is_object()) return nullptr;
  for (auto it = o.begin(); it != o.end(); ++it) if (it.key() == k) return &it.value();
  return nullptr;
}
inline unsigned jeq(const J& a, const J& e, bool top = false);
inline unsigned jeqObj(const J& a, const J& e, bool top) {
  if (!a.is_object()) return 0;
  unsigned ok = 1; std::size_t n = 0, ne = 0;
  for (auto it = a.begin(); it != a.end(); ++it) if (!(top && it.key() == "debug")) n++;
  for (auto it = e.begin(); it != e.end(); ++it) {
    if (top && it.key() == "debug") continue;
    ne++;
    const J* x = jfind(a, it.key());
    if (!x) return 0;
    ok &= jeq(*x, it.value());
  }
  return ok & (n == ne);
}
inline unsigned jeq(const J& a, const J& e, bool top) {
  if (e.is_object()) return jeqObj(a, e, top);
  if (e.is_array()) {
    if (!a.is_array() || a.size() != e.size()) return 0;
    unsigned ok = 1;
    for (std::size_t i = 0; i < e.size(); i++) ok &= jeq(a[i], e[i]);
    return ok;
  }
  if (e.is_string()) return a.is_string() && seq(a.get_ref<const std::string&>(), e.get_ref<const std::string&>());
  if (e.is_boolean()) return a.is_boolean() && ((a.get<bool>() ^ e.get<bool>()) == 0);
  if (e.is_number_integer()) return a.is_number_integer() && a.get<int64_t>() == e.get<int64_t>();
  return a == e;
}
inline void expectJson(const J& a, const J& e, const char* msg) {
  const unsigned ok = jeq(a, e, true);
#ifndef SYMX
  if (!ok) std::fprintf(stderr, "MISMATCH %s\n  got      %s\n  expected %s\n", msg, a.dump(-1, ' ', false, J::error_handler_t::replace).c_str(), e.dump(-1, ' ', false, J::error_handler_t::replace).c_str());
#endif
  check(ok, msg);
}
// ---- a decoder under test ------------------------------------------------------------
inline Options baseOptions() { Options o; o.time_format = "%Y-%m-%dT%H:%M:%S%z"; return o; }
struct Dec {
  Out out; Options opt; Channel ch;
  explicit Dec(const Options& o) : opt(o), ch(o, 0, out.ss) {}
  Dec(const Options& o, u16 pi) : opt(o), ch(o, out.ss, pi) {}
  std::vector<J> feed(const G& g, unsigned stream = 0) { ch.processGroup(mkGroup(g), stream); return out.json(); }
  // exactly one line expected
  J one(const G& g, const char* msg, unsigned stream = 0) {
    auto v = feed(g, stream);
    check(v.size() == 1, msg);
    return v.size() == 1 ? v[0] : J();
  }
};
// ---- oracle text helpers ------------------------------------------------------------
inline char hexd(unsigned v) { return static_cast<char>(v + (v < 10 ? '0' : 'A' - 10)); }
template <int N> std::string hex(u32 v) { std::string s(N, '0'); for (int i = 0; i < N; i++) s[N - 1 - i] = hexd(v >> (4 * i) & 15); return s; }
inline std::string hex0x(u16 v) { return "0x" + hex<4>(v); }
inline std::string d2(unsigned v) { std::string s(2, '0'); s[0] = static_cast<char>('0' + v / 10 % 10); s[1] = static_cast<char>('0' + v % 10); return s; }
inline std::string utf8(u32 cp) {
  const unsigned n = static_cast<unsigned>(symx_concretize(1u + (cp >= 0x80) + (cp >= 0x800) + (cp >= 0x10000)));
  std::string s(n, '\0');
  if (n == 1) s[0] = static_cast<char>(cp);
  else if (n == 2) { s[0] = static_cast<char>(0xC0 | cp >> 6); s[1] = static_cast<char>(0x80 | (cp & 63)); }
  else if (n == 3) { s[0] = static_cast<char>(0xE0 | cp >> 12); s[1] = static_cast<char>(0x80 | (cp >> 6 & 63)); s[2] = static_cast<char>(0x80 | (cp & 63)); }
  else { s[0] = static_cast<char>(0xF0 | cp >> 18); s[1] = static_cast<char>(0x80 | (cp >> 12 & 63)); s[2] = static_cast<char>(0x80 | (cp >> 6 & 63)); s[3] = static_cast<char>(0x80 | (cp & 63)); }
  return s;
}
// the named fields of the expected object are present with these values (others are not looked at)
inline void expectHas(const J& a, const J& e, const char* msg) {
  unsigned ok = a.is_object();
  for (auto it = e.begin(); it != e.end(); ++it) {
    const J* x = jfind(a, it.key());
    ok &= x ? jeq(*x, it.value()) : 0u;
  }
#ifndef SYMX
  if (!ok) std::fprintf(stderr, "MISMATCH %s\n  got           %s\n  must include  %s\n", msg, a.dump(-1, ' ', false, J::error_handler_t::replace).c_str(), e.dump(-1, ' ', false, J::error_handler_t::replace).c_str());
#endif
  check(ok, msg);
}
inline void expectLacks(const J& a, std::initializer_list<const char*> keys, const char* msg) {
  unsigned ok = 1;
  for (const char* k : keys) ok &= jfind(a, k) == nullptr;
#ifndef SYMX
  if (!ok) std::fprintf(stderr, "UNEXPECTED FIELD %s\n  got %s\n", msg, a.dump(-1, ' ', false, J::error_handler_t::replace).c_str());
#endif
  check(ok, msg);
}
