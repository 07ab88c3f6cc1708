/* C04: word-level bit arithmetic of bits.c and bits.h. */
#include "vp.h"
#include <swiftnav/bits.h>

IN(u64, in_v);
IN(u8, in_x);
IN(u8, in_y);
IN(u8, in_bv);

/* ---- specification: sums and tests of single bits ---- */
static u8 bitk(u64 v, unsigned k) { return (u8)((v >> k) & 1u); }
static u8 popcount(u64 v) {
  u8 n = 0;
  for (unsigned k = 0; k < 64; k++) n = (u8)(n + bitk(v, k));
  return n;
}
static u16 interleaved(u8 x, u8 y) {
  u16 z = 0;
  for (unsigned k = 0; k < 8; k++)
    z = (u16)(z | (bitk(x, k) << (2 * k)) | (bitk(y, k) << (2 * k + 1)));
  return z;
}
static u64 reversed(u64 v, unsigned bytes) {
  u64 r = 0;
  for (unsigned k = 0; k < bytes; k++)
    r |= ((v >> (8 * k)) & 0xffu) << (8 * (bytes - 1 - k));
  return r;
}

static u8 odd(u64 v) {
  u8 n = 0;
  for (unsigned k = 0; k < 64; k++) n ^= bitk(v, k);
  return n;
}
#define P_PARITY(r, v) ((r) == odd(v))
#define P_COUNT(r, v, bv, w) ((r) == ((bv) == 1 ? popcount(v) : (w) - popcount(v)))
#define P_INTER(r, x, y) ((r) == interleaved(x, y))

VP_CONTRACT(u8 parity(u32 x) ENS(P_PARITY(RET, x)) ASSIGNS())
VP_CONTRACT(u16 bytes_interleave(const u8 x, const u8 y)
  ENS(P_INTER(RET, x, y)) ASSIGNS())
VP_CONTRACT(u8 count_bits_u64(u64 v, u8 bv) REQ(bv <= 1)
  ENS(P_COUNT(RET, v, bv, 64)) ASSIGNS())
VP_CONTRACT(u8 count_bits_u32(u32 v, u8 bv) REQ(bv <= 1)
  ENS(P_COUNT(RET, v, bv, 32)) ASSIGNS())
VP_CONTRACT(u8 count_bits_u16(u16 v, u8 bv) REQ(bv <= 1)
  ENS(P_COUNT(RET, v, bv, 16)) ASSIGNS())
VP_CONTRACT(u8 count_bits_u8(u8 v, u8 bv) REQ(bv <= 1)
  ENS(P_COUNT(RET, v, bv, 8)) ASSIGNS())

void h_parity(void) {
  HAVOC(in_v);
  u8 r = parity((u32)in_v);
  NATIVE_ENSURE("parity", P_PARITY(r, (u32)in_v));
  REACH();
}
void h_interleave(void) {
  HAVOC(in_x);
  HAVOC(in_y);
  u16 r = bytes_interleave(in_x, in_y);
  NATIVE_ENSURE("interleave", P_INTER(r, in_x, in_y));
  REACH();
}
#define H_COUNT(w)                                                    \
  void h_count##w(void) {                                             \
    HAVOC(in_v);                                                      \
    HAVOC(in_bv);                                                     \
    VP_RANGE(in_bv, 0, 1);                                            \
    u8 r = count_bits_u##w((u##w)in_v, in_bv);                        \
    NATIVE_ENSURE("count", P_COUNT(r, (u##w)in_v, in_bv, w));         \
    REACH();                                                          \
  }
H_COUNT(8)
H_COUNT(16)
H_COUNT(32)
H_COUNT(64)

/* The inline conversions: contract attached under its own name. The machine
 * modelled is little endian, so to/from big endian reverses the bytes. */
#define SWAPS(F, w, expr)                                                  \
  VP_CONTRACT(u##w c_##F(u##w v) ENS(RET == (u##w)(expr)) ASSIGNS())        \
  void h_##F(void) {                                                        \
    HAVOC(in_v);                                                            \
    u##w v = (u##w)in_v;                                                    \
    u##w r = F(v);                                                          \
    NATIVE_ENSURE(#F, r == (u##w)(expr));                                   \
    ENSURE(#F " is its own inverse", (u##w)(r == v ? v : reversed(r, w / 8)) == v); \
    REACH();                                                                \
  }
#define ALLSWAPS(w)                                 \
  SWAPS(byte_swap_##w, w, reversed(v, w / 8))       \
  SWAPS(htobe_##w, w, reversed(v, w / 8))           \
  SWAPS(betoh_##w, w, reversed(v, w / 8))           \
  SWAPS(htole_##w, w, v)                            \
  SWAPS(letoh_##w, w, v)
ALLSWAPS(16)
ALLSWAPS(32)
ALLSWAPS(64)
