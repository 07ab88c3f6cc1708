/* C03: bitshl and bitcopy. */
#include "vp.h"
#include <swiftnav/bits.h>
#ifndef VP_N
#define VP_N 10
#endif
#ifndef VP_R
#define VP_R 0
#endif
struct buf { u8 b[VP_N]; };
IN(struct buf, in_a);
IN(struct buf, in_b);
IN(u32, in_size);
IN(u32, in_shift);
IN(u32, in_k);
IN(u32, in_si);
IN(u32, in_di);
IN(u32, in_cnt);
static struct buf a, b, g_a, g_b;
static u8 *p;

static u8 bit(const u8 *x, u32 i) { return (x[i >> 3] >> (7 - (i & 7))) & 1; }

/* bit k of the result, for any k inside the buffer */
#define SHL_POST                                                        \
  (in_k >= 8 * in_size ||                                               \
   bit(p, in_k) == (((u64)in_k + in_shift < 8ull * in_size)             \
                        ? bit(g_a.b, VP_N * 8 - 8 * in_size + in_k + in_shift) \
                        : 0))
VP_CONTRACT(void bitshl(void *buf, u32 size, u32 shift)
  REQ(buf == p && size == in_size && shift == in_shift)
  ENS(SHL_POST)
  ASSIGNS(OBJ(p)))

void h_bitshl(void) {
  HAVOC(in_a);
  g_a = in_a;
  a = in_a;
  HAVOC(in_size);
  VP_RANGE(in_size, 1u, VP_N);
  HAVOC(in_shift);
  HAVOC(in_k);
  VP_HINT(in_k %= 8 * VP_N);
#ifdef VP_CBMC
  /* the buffer ends with its object: nothing may be accessed past its end */
  p = a.b + (VP_N - in_size);
#else
  VP_MALLOC(p, in_size);
  memcpy(p, in_a.b + (VP_N - in_size), in_size);
#endif
  bitshl(p, in_size, in_shift);
  NATIVE_ENSURE("bits moved towards the start, zero filled", SHL_POST);
#ifdef VP_CBMC
  /* frame: bytes before the buffer, in the same object */
  u32 j;
  __CPROVER_assume(j < VP_N - in_size);
  ENSURE("bytes in front of the buffer unchanged", a.b[j] == g_a.b[j]);
#endif
  REACH();
}

/* Contracts of the accessors in tracked-bit form: they say everything about
 * the one source bit g_sk and the one destination bit g_dk, which are
 * arbitrary. Enforced on the real accessors by h_getbit_k and h_setbit_k. */
static u32 g_sk, g_dk;
static const u8 *g_src;
static u8 *g_dst;
VP_CONTRACT(u32 getbitu(const u8 *buff, u32 pos, u8 len)
  REQ(buff == g_src && len <= 32 && (u64)pos + len <= 0xffffffffu)
  ENS(!(g_sk >= pos && g_sk - pos < len) ||
      ((RET >> (len - 1 - (g_sk - pos))) & 1) == bit(buff, g_sk))
  ASSIGNS())
VP_CONTRACT(void setbitu(u8 *buff, u32 pos, u32 len, u32 data)
  REQ(buff == g_dst && len <= 32 && (u64)pos + len <= 0xffffffffu)
  ENS(bit(buff, g_dk) ==
      ((g_dk >= pos && g_dk - pos < len)
           ? ((data >> (len - 1 - (g_dk - pos))) & 1)
           : ((__CPROVER_old(buff[g_dk >> 3]) >> (7 - (g_dk & 7))) & 1)))
  ASSIGNS(OBJ(buff)))

IN(u8, in_len);
IN(u32, in_q);
IN(u32, in_data);
#ifndef VP_LO
#define VP_LO 0
#define VP_HI 32
#endif
#ifdef VP_CBMC
/* the accessor contracts above, enforced; memory model of bits_get.c */
static void acc_setup(void) {
  HAVOC(in_a);
  a = in_a;
  HAVOC(in_len);
  VP_RANGE(in_len, VP_LO, VP_HI);
  HAVOC(in_q);
  VP_RANGE(in_q, 0u, (1u << 29) - 1);
  ASSUME(8ull * in_q + VP_R + in_len <= 0xffffffffull);
  HAVOC(in_k);
  VP_RANGE(in_k, 8 * in_q, 8 * in_q + 8 * VP_N - 1);
  ASSUME(in_k >= 8 * in_q);
  p = a.b - in_q;
  g_src = g_dst = p;
  g_sk = g_dk = in_k;
}
void h_getbit_k(void) {
  acc_setup();
  getbitu(p, 8 * in_q + VP_R, in_len);
  REACH();
}
void h_setbit_k(void) {
  acc_setup();
  /* whole-object base (__CPROVER_old needs a pointer inside its object); that
   * setbitu does not depend on the byte offset is C02's contract */
  __CPROVER_assume(in_q + (VP_R + in_len + 7) / 8 <= VP_N);
  __CPROVER_assume(in_k < 8 * VP_N);
  p = a.b;
  g_dst = p;
  HAVOC(in_data);
  setbitu(p, 8 * in_q + VP_R, in_len, in_data);
  REACH();
}
#endif

#define COPY_POST                                             \
  (in_k >= 8 * VP_N ||                                        \
   bit(b.b, in_k) == ((in_k >= in_di && in_k - in_di < in_cnt) \
                          ? bit(g_a.b, in_k - in_di + in_si)  \
                          : bit(g_b.b, in_k)))
VP_CONTRACT(void bitcopy(void *dst, u32 dst_index, const void *src, u32 src_index, u32 count)
  REQ(dst == b.b && src == a.b && (u64)dst_index + count <= 8 * VP_N &&
      (u64)src_index + count <= 8 * VP_N)
  ENS(COPY_POST)
  ASSIGNS(b))

/* start bits 0..7 are enumerated by the cases (VP_SI, VP_DI): an access at a
 * larger index is an access at index%8 of a later byte (C01, C02). */
#ifndef VP_SI
#define VP_SI 3
#define VP_DI 6
#endif
void h_bitcopy(void) {
  HAVOC(in_a);
  HAVOC(in_b);
  g_a = a = in_a;
  g_b = b = in_b;
  in_si = VP_SI;
  in_di = VP_DI;
  HAVOC(in_cnt);
  VP_RANGE(in_cnt, 0, 8 * VP_N);
  ASSUME(in_di + in_cnt <= 8 * VP_N && in_si + in_cnt <= 8 * VP_N);
  HAVOC(in_k);
  VP_HINT(in_k %= 8 * VP_N);
  ASSUME(in_k < 8 * VP_N);
  bitcopy(b.b, VP_DI, a.b, VP_SI, in_cnt);
  NATIVE_ENSURE("bits copied, others unchanged", COPY_POST);
  REACH();
}
