/* C02: bit-field writes: exactly the field changes, and it reads back.
 * Memory model as in bits_get.c: the bytes the field occupies end the mapped
 * window; any access past them, or below the window, fails an obligation. */
#include "vp.h"
#include <swiftnav/bits.h>

struct w9 { u8 b[9]; };
IN(u32, in_q);
IN(u32, in_len);
IN(u8, in_r);
IN(u64, in_data);
IN(struct w9, in_w);
static struct w9 w;   /* the window (CBMC) */
static struct w9 g_w; /* ghost: its contents before the call */
static u8 *buf;
static u32 pos, used;

typedef struct { u8 hi; u64 lo; } u72;
static u72 num(const u8 *b) {
  u72 r = {b[0], 0};
  for (u32 k = 1; k < 9; k++) r.lo = (r.lo << 8) | b[k];
  return r;
}
static u64 lmask(u32 len) {
  return len >= 64 ? ~(u64)0 : (((u64)1 << len) - 1);
}
/* The window after writing the low `len` bits of data so that the field ends
 * `pad` bits before the end of the window; every other bit as it was. */
static bool written(const u8 *after, u32 pos_, u32 len, u64 data) {
  u72 o = num(g_w.b), n = num(after);
  u32 pad = (0u - (pos_ + len)) & 7;
  u64 m = lmask(len), d = data & m;
  u64 mlo = m << pad, dlo = d << pad;
  u8 mhi = pad ? (u8)(m >> (64 - pad)) : 0, dhi = pad ? (u8)(d >> (64 - pad)) : 0;
  return n.lo == ((o.lo & ~mlo) | dlo) && n.hi == (u8)((o.hi & ~mhi) | dhi);
}
static bool unchanged(const u8 *after) {
  return memcmp(after, g_w.b, 9) == 0;
}
#define POST(len, max, data)                        \
  (((len) >= 1 && (len) <= (max)) ? written(w.b, pos, len, data) \
                                  : (num(w.b).lo == num(g_w.b).lo && w.b[0] == g_w.b[0]))

VP_CONTRACT(void setbitu(u8 *buff, u32 pos_, u32 len, u32 data)
  REQ(pos_ == pos && buff == buf)
  ENS(POST(len, 32, data))
  ASSIGNS(w))
VP_CONTRACT(void setbits(u8 *buff, u32 pos_, u32 len, s32 data)
  REQ(pos_ == pos && buff == buf)
  ENS(POST(len, 32, (u64)(s64)data))
  ASSIGNS(w))
VP_CONTRACT(void setbitul(u8 *buff, u32 pos_, u32 len, u64 data)
  REQ(pos_ == pos && buff == buf)
  ENS(POST(len, 64, data))
  ASSIGNS(w))
VP_CONTRACT(void setbitsl(u8 *buff, u32 pos_, u32 len, s64 data)
  REQ(pos_ == pos && buff == buf)
  ENS(POST(len, 64, (u64)data))
  ASSIGNS(w))

static void setup(u32 max) {
  HAVOC(in_q);
  VP_HINT(in_q %= 3000);
  VP_RANGE(in_q, 0u, (1u << 29) - 1);
  HAVOC(in_len);
  VP_HINT(in_len %= 70);
#ifdef VP_LO
  VP_RANGE(in_len, VP_LO, VP_HI);
#endif
  HAVOC(in_r);
#ifdef VP_R
  in_r = VP_R;
#endif
  VP_RANGE(in_r, 0, 7);
  HAVOC(in_data);
  HAVOC(in_w);
  g_w = in_w;
  pos = 8 * in_q + in_r;
  ASSUME((u64)pos + in_len <= 0xffffffffu);
  used = in_len > max ? 0 : (in_r + in_len + 7) / 8;
#ifdef VP_CBMC
  w = in_w;
  buf = w.b + (9 - used) - in_q;
#else
  VP_MALLOC(buf, in_q + used);
  for (u32 k = 0; k < 9; k++)
    if (in_q + used + k >= 9) buf[in_q + used + k - 9] = in_w.b[k];
#endif
}
static void collect(void) {
#ifndef VP_CBMC
  w = g_w;
  for (u32 k = 0; k < 9; k++)
    if (in_q + used + k >= 9) w.b[k] = buf[in_q + used + k - 9];
#endif
}

void h_setbitu(void) {
  setup(32);
  setbitu(buf, pos, in_len, (u32)in_data);
  collect();
  NATIVE_ENSURE("field written, all other bits kept", POST(in_len, 32, (u32)in_data));
  REACH();
}
void h_setbits(void) {
  setup(32);
  setbits(buf, pos, in_len, (s32)in_data);
  collect();
  NATIVE_ENSURE("field written, all other bits kept", POST(in_len, 32, in_data));
  REACH();
}
void h_setbitul(void) {
  setup(64);
  setbitul(buf, pos, in_len, in_data);
  collect();
  NATIVE_ENSURE("field written, all other bits kept", POST(in_len, 64, in_data));
  REACH();
}
void h_setbitsl(void) {
  setup(64);
  setbitsl(buf, pos, in_len, (s64)in_data);
  collect();
  NATIVE_ENSURE("field written, all other bits kept", POST(in_len, 64, in_data));
  REACH();
}
