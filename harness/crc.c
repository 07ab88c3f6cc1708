/* C06: CRC-24Q. */
#include "vp.h"
#include <swiftnav/edc.h>
#ifndef N
#define N 16
#endif
#ifndef VP_R
#define VP_R 0
#endif
struct buf { u8 b[N]; };
IN(struct buf, in_b);
IN(u32, in_crc);
IN(u32, in_n);
IN(u32, in_k);
IN(u8, in_inv);
static struct buf w, pad;
static u8 *p;
static u32 g_expect;

/* one message byte: eight steps of division by the generator polynomial */
static u32 step(u32 c, u8 b) {
  c = (c & 0xffffffu) ^ ((u32)b << 16);
  for (unsigned k = 0; k < 8; k++) {
    c <<= 1;
    if (c & 0x1000000u) c ^= 0x1864CFBu;
  }
  return c & 0xffffffu;
}

VP_CONTRACT(u32 crc24q(const u8 *buf, u32 len, u32 crc)
  REQ(buf == p && len == in_n)
  ENS(RET == g_expect)
  ASSIGNS())

static void setup(u32 maxn) {
  HAVOC(in_b);
  HAVOC(in_crc);
  HAVOC(in_n);
  HAVOC(in_k);
  VP_HINT(in_n %= N + 1; in_k %= N + 1);
#ifdef VP_LEN /* one case per length */
  in_n = VP_LEN;
  (void)maxn;
#else
  VP_RANGE(in_n, 0, maxn);
#endif
  w = in_b;
#ifdef VP_CBMC
  p = w.b + (N - in_n);
#else
  VP_MALLOC(p, in_n);
  memcpy(p, in_b.b + (N - in_n), in_n);
#endif
}

/* a single byte, any initial value: the polynomial step */
void h_step(void) {
  setup(1);
  g_expect = in_n ? step(in_crc, in_b.b[N - 1]) : in_crc;
  u32 r = crc24q(p, in_n, in_crc);
  NATIVE_ENSURE("one polynomial division step", r == g_expect);
  REACH();
}

/* longer messages: the checksum is continued byte by byte, so that any split
 * of the message gives the same result */
void h_compose(void) {
  setup(N);
#ifdef VP_K
  in_k = VP_K;
#endif
  ASSUME(in_k <= in_n);
  u32 r = crc24q(p, in_n, in_crc);
  u32 s = crc24q(p + in_k, in_n - in_k, crc24q(p, in_k, in_crc));
  ENSURE("in pieces as in one go", r == s);
  ENSURE("24 bits", in_n == 0 || r <= 0xffffffu);
  REACH();
}
void h_chain(void) {
  setup(N);
  u32 r = crc24q(p, in_n, in_crc);
  u32 c = in_crc;
  for (u32 i = 0; i < N; i++)
    if (i < in_n) c = crc24q(&in_b.b[N - in_n + i], 1, c);
  ENSURE("byte by byte as in one go", r == c);
  ENSURE("message unchanged", memcmp(&w, &in_b, sizeof w) == 0);
  REACH();
}

/* bit-aligned messages */
VP_CONTRACT(u32 crc24q_bits(u32 crc, const u8 *buf, u32 n_bits, bool invert)
  REQ(buf == p && n_bits == 8 * in_n - (8 - VP_R) % 8)
  ENS(RET == g_expect)
  ASSIGNS())
void h_bits(void) {
  setup(N);
  HAVOC(in_inv);
  VP_RANGE(in_inv, 0, 1);
  ASSUME(in_n > 0);
  u32 n_bits = 8 * in_n - (8 - VP_R) % 8;
  u32 shift = (8 - VP_R) % 8;
  u32 c = in_crc;
  u8 prev = 0;
  for (u32 i = 0; i < N; i++) {
    if (i >= in_n) break;
    u8 cur = (u8)(in_b.b[N - in_n + i] ^ (in_inv ? 0xff : 0));
    u8 byte = (u8)(((((u32)prev << 8) | cur) >> shift) & 0xff);
    c = crc24q(&byte, 1, c);
    prev = cur;
  }
  g_expect = c;
  u32 r = crc24q_bits(in_crc, p, n_bits, in_inv);
  NATIVE_ENSURE("checksum of the zero-padded message", r == g_expect);
  REACH();
}
