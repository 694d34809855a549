// Reference encoder for the 26-bit blocks of IEC 62106 Annex A/B (independent of the code under test).
#pragma once
#include "oracle.h"
namespace oracle {
constexpr u32 kOffWord[5] = {0x0FC, 0x198, 0x168, 0x1B4, 0x350};   // A B C D C'
// remainder of m(x)*x^10 modulo g(x) = x^10+x^8+x^7+x^5+x^4+x^3+1
inline u32 crc10(u32 data) {
  u32 r = 0;
  for (int i = 15; i >= 0; i--) {
    const u32 fb = (r >> 9 & 1) ^ (data >> i & 1);
    r = (r << 1 & 0x3FF) ^ (fb * 0x1B9);
  }
  return r;
}
inline u32 encode(u32 data, unsigned off) { return (data & 0xFFFF) << 10 | (crc10(data) ^ kOffWord[off]); }
// all error patterns the decoder is allowed to correct: bursts of one or two bits
constexpr unsigned kNumBursts = 51;
constexpr u32 burst(unsigned i) { return i < 26 ? 1u << i : 3u << (i - 26); }
// remainder of any 26-bit word: zero iff it is the plain (no offset) encoding of its data part
inline u32 rem26(u32 w) { return crc10(w >> 10) ^ (w & 0x3FF); }
// what a receiver does with one 26-bit word when it expects the given offset
struct Rx { u32 ok; u32 data; };
inline Rx receive(u32 w, unsigned off, bool fec) {
  Rx r{0, w >> 10};
  const u32 s = rem26(w) ^ kOffWord[off];
  if (fec)
    for (unsigned i = 0; i < kNumBursts; i++) {
      const u32 hit = s == rem26(burst(i));
      r.ok |= hit;
      r.data ^= hit * (burst(i) >> 10);
    }
  r.ok |= s == 0;
  return r;
}
inline void pushWord(Channel& ch, u32 w, unsigned stream = 0) { for (int i = 25; i >= 0; i--) ch.processBit((w >> i & 1) != 0, stream); }
inline void pushGroup(Channel& ch, const u16* b, bool cp = false, unsigned stream = 0) {
  for (unsigned i = 0; i < 4; i++) pushWord(ch, encode(b[i], i == 2 && cp ? 4 : i), stream);
}
}
