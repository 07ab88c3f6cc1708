/* C01: bit-field reads.
 *
 * Memory model of the buffer: the caller's buffer may be of any size up to
 * 2^29 bytes. Only the bytes the field occupies and what precedes them inside
 * a 9-byte window are mapped; the window ends with the field's last byte, so
 * that any access past the field's last byte, or below the window, is an
 * out-of-bounds obligation that fails. Byte q of the buffer is the byte that
 * holds the field's first bit. VP_R (bit offset within the byte) and the range
 * VP_LO..VP_HI of lengths are a complete case split, enumerated by the driver.
 */
#include "vp.h"
#include <swiftnav/bits.h>

#ifndef VP_R
#define VP_R 0
#define VP_LO 1
#define VP_HI 32
#endif

struct w9 { u8 b[9]; };
IN(u32, in_q);
IN(u8, in_len);
IN(struct w9, in_w);
static struct w9 g_w; /* ghost: contents of the window */

/* The field: the window as a 72-bit big-endian number, dropping the bits that
 * follow the field in its last byte, modulo 2^len. */
static u64 field(u32 pos, u32 len) {
  u64 lo = 0;
  for (u32 k = 1; k < 9; k++) lo = (lo << 8) | g_w.b[k];
  u32 pad = (0u - (pos + len)) & 7;
  u64 v = pad ? (lo >> pad) | ((u64)g_w.b[0] << (64 - pad)) : lo;
  if (len == 0) return 0;
  return len == 64 ? v : v & (((u64)1 << len) - 1);
}
/* two's complement value of the low `len` bits of v */
static s64 sext(u64 v, u32 len) {
  if (len == 64) return (s64)v;
  u64 sign = (u64)1 << (len - 1);
  return (v & sign) ? (s64)(v | ~(((u64)1 << len) - 1)) : (s64)v;
}

#define PRE(pos, len, max) ((len) <= (max) && (u64)(pos) + (len) <= 0xffffffffu)

VP_CONTRACT(u32 getbitu(const u8 *buff, u32 pos, u8 len)
  REQ(PRE(pos, len, 32))
  ENS(RET == field(pos, len))
  ASSIGNS())
VP_CONTRACT(u64 getbitul(const u8 *buff, u32 pos, u8 len)
  REQ(PRE(pos, len, 64))
  ENS(RET == field(pos, len))
  ASSIGNS())
VP_CONTRACT(s32 getbits(const u8 *buff, u32 pos, u8 len)
  REQ(len >= 1 && PRE(pos, len, 32))
  ENS((s64)RET == sext(field(pos, len), len))
  ASSIGNS())
VP_CONTRACT(s64 getbitsl(const u8 *buff, u32 pos, u8 len)
  REQ(len >= 1 && PRE(pos, len, 64))
  ENS(RET == sext(field(pos, len), len))
  ASSIGNS())

static const u8 *buf;
static u32 pos;

static void setup(void) {
  HAVOC(in_q);
  VP_HINT(in_q %= 3000);
  VP_RANGE(in_q, 0u, (1u << 29) - 1);
  HAVOC(in_len);
  VP_RANGE(in_len, VP_LO, VP_HI);
  HAVOC(in_w);
  g_w = in_w;
  pos = 8 * in_q + VP_R;
  ASSUME(PRE(pos, in_len, 64));
  u32 used = (VP_R + in_len + 7) / 8;
#ifdef VP_CBMC
  static struct w9 w;
  w = in_w;
  buf = w.b + (9 - used) - in_q;
#else
  /* the same bytes in a real buffer whose last byte is the field's */
  u8 *m;
  VP_MALLOC(m, in_q + used);
  for (u32 k = 0; k < 9; k++)
    if (in_q + used + k >= 9) m[in_q + used + k - 9] = in_w.b[k];
  buf = m;
#endif
}

void h_getbitu(void) {
  setup();
  u32 r = getbitu(buf, pos, in_len);
  NATIVE_ENSURE("unsigned field value", r == field(pos, in_len));
  REACH();
}
void h_getbitul(void) {
  setup();
  u64 r = getbitul(buf, pos, in_len);
  NATIVE_ENSURE("unsigned long field value", r == field(pos, in_len));
  REACH();
}
void h_getbits(void) {
  setup();
  s32 r = getbits(buf, pos, in_len);
  NATIVE_ENSURE("signed field value", (s64)r == sext(field(pos, in_len), in_len));
  REACH();
}
void h_getbitsl(void) {
  setup();
  s64 r = getbitsl(buf, pos, in_len);
  NATIVE_ENSURE("signed long field value", r == sext(field(pos, in_len), in_len));
  REACH();
}
