/* C05: the inline stream readers and writers of bitstream.h and bytestream.h.
 *
 * The bit accessors are used through their contract only: a call must stay
 * inside the stream's buffer (precondition) and yields the value stored at
 * that place, here the ghost g_val; C01/C02 enforce those contracts on the
 * accessors themselves. */
#include "vp.h"
#include <swiftnav/bitstream.h>
#include <swiftnav/bytestream.h>

IN(u32, in_slen);   /* length of the stream, in bits or bytes */
IN(u32, in_off);    /* current offset */
IN(u32, in_pos);    /* requested relative position */
IN(u32, in_n);      /* requested size */
IN(u64, in_val);
IN(u64, in_old);
static u64 g_val;
static u8 *g_data;
static u32 g_calls;

#define FITS ((u64)in_off + in_pos + in_n <= in_slen)

#ifdef VP_CBMC
#define ACC_REQ \
  REQ(buff == g_data && pos == in_off + in_pos && len == in_n && FITS && \
      g_calls == 0)
u32 getbitu(const u8 *buff, u32 pos, u8 len) ACC_REQ
    ENS(RET == (u32)g_val && g_calls == 1) ASSIGNS(g_calls);
s32 getbits(const u8 *buff, u32 pos, u8 len) ACC_REQ
    ENS(RET == (s32)g_val && g_calls == 1) ASSIGNS(g_calls);
u64 getbitul(const u8 *buff, u32 pos, u8 len) ACC_REQ
    ENS(RET == g_val && g_calls == 1) ASSIGNS(g_calls);
s64 getbitsl(const u8 *buff, u32 pos, u8 len) ACC_REQ
    ENS(RET == (s64)g_val && g_calls == 1) ASSIGNS(g_calls);
void setbitu(u8 *buff, u32 pos, u32 len, u32 data) ACC_REQ
    REQ(data == (u32)g_val) ENS(g_calls == 1) ASSIGNS(g_calls);
void setbits(u8 *buff, u32 pos, u32 len, s32 data) ACC_REQ
    REQ(data == (s32)g_val) ENS(g_calls == 1) ASSIGNS(g_calls);
void setbitul(u8 *buff, u32 pos, u32 len, u64 data) ACC_REQ
    REQ(data == g_val) ENS(g_calls == 1) ASSIGNS(g_calls);
void setbitsl(u8 *buff, u32 pos, u32 len, s64 data) ACC_REQ
    REQ(data == (s64)g_val) ENS(g_calls == 1) ASSIGNS(g_calls);
#endif

static void setup(u32 maxn, u32 minn, u32 unit) {
  HAVOC(in_slen);
  HAVOC(in_off);
  HAVOC(in_pos);
  HAVOC(in_n);
  HAVOC(in_val);
  HAVOC(in_old);
  VP_HINT(in_slen %= 2000; if (vp_rand() % 4) in_off %= 2000;
          if (vp_rand() % 4) in_pos %= 500;
          if (vp_rand() % 8 == 0) in_pos = 0u - in_off + (u32)(vp_rand() % 99));
  VP_RANGE(in_n, minn, maxn);
  g_val = in_val;
  g_calls = 0;
#ifdef VP_CBMC
  static u8 one;
  g_data = &one;
  (void)unit;
#else
  VP_MALLOC(g_data, ((size_t)in_slen + unit - 1) / unit);
#endif
}

#define GETTER(NAME, T, ACC, MIN, MAX)                                        \
  VP_CONTRACT(bool c_##NAME(const swiftnav_in_bitstream_t *buf, T *out,        \
                            u32 pos, u32 len)                                  \
    REQ(pos == in_pos && len == in_n)                                          \
    ENS(RET == FITS)                                                           \
    ENS(*out == (T)(RET ? g_val : in_old))                                     \
    ASSIGNS(*out, g_calls))                                                    \
  void h_##NAME(void) {                                                        \
    setup(MAX, MIN, 8);                                                        \
    static swiftnav_in_bitstream_t st;                                         \
    static T out;                                                              \
    st.data = g_data;                                                          \
    st.len = in_slen;                                                          \
    st.offset = in_off;                                                        \
    out = (T)in_old;                                                           \
    bool r = swiftnav_in_bitstream_##NAME(&st, &out, in_pos, in_n);            \
    NATIVE_ENSURE("succeeds exactly when the item fits", r == FITS);           \
    NATIVE_ENSURE("output", r ? out == ACC(g_data, in_off + in_pos, in_n)      \
                             : out == (T)in_old);                              \
    ENSURE("stream state unchanged", st.data == g_data &&                      \
           st.len == in_slen && st.offset == in_off);                          \
    REACH();                                                                   \
  }
GETTER(getbitu, u32, getbitu, 0, 32)
GETTER(getbits, s32, getbits, 1, 32)
GETTER(getbitul, u64, getbitul, 0, 64)
GETTER(getbitsl, s64, getbitsl, 1, 64)

#define SETTER(NAME, T, ACC, GET, MAX)                                         \
  VP_CONTRACT(bool c_##NAME(swiftnav_out_bitstream_t *buf, const T *in,         \
                            u32 pos, u32 len)                                   \
    REQ(pos == in_pos && len == in_n)                                           \
    ENS(RET == FITS && g_calls == (FITS ? 1 : 0))                               \
    ASSIGNS(g_calls))                                                           \
  void h_##NAME(void) {                                                         \
    setup(MAX, 1, 8);                                                           \
    static swiftnav_out_bitstream_t st;                                         \
    static T val;                                                               \
    st.data = g_data;                                                           \
    st.len = in_slen;                                                           \
    st.offset = in_off;                                                         \
    val = (T)in_val;                                                            \
    bool r = swiftnav_out_bitstream_##NAME(&st, &val, in_pos, in_n);            \
    NATIVE_ENSURE("succeeds exactly when the item fits", r == FITS);            \
    NATIVE_ENSURE("value stored", !r || (T)GET(g_data, in_off + in_pos, in_n)   \
        == (in_n == 8 * sizeof(T) ? val                                         \
               : (T)((T)((u64)val << (64 - in_n) >> (64 - in_n)))));            \
    ENSURE("stream state unchanged", st.data == g_data &&                       \
           st.len == in_slen && st.offset == in_off);                           \
    REACH();                                                                    \
  }
SETTER(setbitu, u32, setbitu, getbitu, 32)
SETTER(setbits, s32, setbits, getbitu, 32)
SETTER(setbitul, u64, setbitul, getbitul, 64)
SETTER(setbitsl, s64, setbitsl, getbitul, 64)

/* position bookkeeping */
#define POSITION(NAME, S)                                                     \
  VP_CONTRACT(void c_##NAME##_remove(S *buf, u32 len)                          \
    REQ((u64)buf->offset + len <= 0xffffffffu)                                 \
    ENS(buf->offset == in_off + in_n && buf->len == in_slen &&                 \
        buf->data == g_data) ASSIGNS(*buf))                                    \
  VP_CONTRACT(u32 c_##NAME##_remaining(S *buf)                                 \
    ENS(RET == (in_off > in_slen ? 0 : in_slen - in_off)) ASSIGNS())           \
  void h_##NAME##_remove(void) {                                               \
    setup(0xffffffffu, 0, 8);                                                  \
    ASSUME((u64)in_off + in_n <= 0xffffffffu);                                 \
    static S st;                                                               \
    st.data = g_data;                                                          \
    st.len = in_slen;                                                          \
    st.offset = in_off;                                                        \
    NAME##_remove(&st, in_n);                                                  \
    NATIVE_ENSURE("position moved", st.offset == in_off + in_n &&              \
           st.len == in_slen && st.data == g_data);                            \
    REACH();                                                                   \
  }                                                                            \
  void h_##NAME##_remaining(void) {                                            \
    setup(0xffffffffu, 0, 8);                                                  \
    static S st;                                                               \
    st.data = g_data;                                                          \
    st.len = in_slen;                                                          \
    st.offset = in_off;                                                        \
    u32 r = NAME##_remaining(&st);                                             \
    NATIVE_ENSURE("remaining", r == (in_off > in_slen ? 0 : in_slen - in_off));\
    ENSURE("stream unchanged", st.data == g_data && st.len == in_slen &&       \
           st.offset == in_off);                                               \
    REACH();                                                                   \
  }
POSITION(swiftnav_in_bitstream, swiftnav_in_bitstream_t)
POSITION(swiftnav_out_bitstream, swiftnav_out_bitstream_t)
POSITION(swiftnav_bytestream, swiftnav_bytestream_t)

/* ---- byte streams ---- */
#ifndef W
#define W 64
#endif
struct win { u8 b[W]; };
IN(struct win, in_w);
IN(u32, in_k);
IN(int, in_end);
static struct win w, dst;
static swiftnav_bytestream_t bs;

/* The stream buffer ends where its object ends. Failing requests are covered
 * for every buffer length, successful ones for buffers of up to W bytes. */
static u8 *bytes_setup(u32 maxn, u32 minn) {
  HAVOC(in_w);
  HAVOC(in_slen);
  HAVOC(in_off);
  HAVOC(in_pos);
  HAVOC(in_n);
  HAVOC(in_old);
  HAVOC(in_k);
  HAVOC(in_end);
  VP_HINT(in_slen %= 40; if (vp_rand() % 4) in_off %= 40;
          if (vp_rand() % 4) in_pos %= 10; in_k %= W; in_end &= 1;
          if (vp_rand() % 8 == 0) in_pos = 0u - in_off + (u32)(vp_rand() % 19));
  VP_RANGE(in_n, minn, maxn);
  ASSUME(in_end == SWIFT_LITTLE_ENDIAN || in_end == SWIFT_BIG_ENDIAN);
  w = in_w;
  memset(&dst, 0, sizeof dst);
#ifdef VP_CBMC
  g_data = in_slen <= W ? w.b + (W - in_slen) : w.b;
#else
  VP_MALLOC(g_data, in_slen);
  for (u32 i = 0; i < W && i < in_slen; i++)
    g_data[in_slen - 1 - i] = in_w.b[W - 1 - i];
#endif
  bs.data = g_data;
  bs.len = in_slen;
  bs.offset = in_off;
  bs.endianess = (enum endianess)in_end;
  return g_data;
}
/* byte j of the item, most significant end of the buffer window */
#define ITEM(j) in_w.b[W - in_slen + in_off + in_pos + (j)]
#define INWIN (!FITS || in_slen <= W)

VP_CONTRACT(bool c_get_bytes(const swiftnav_bytestream_t *buf, u32 index,
                             u32 len, u8 *dest)
  ENS(RET == FITS)
  ENS(in_k >= in_n || dest[in_k] == (RET ? ITEM(in_k) : 0))
  ASSIGNS(dst))
void h_get_bytes(void) {
  bytes_setup(W, 0);
  ASSUME(INWIN);
  ASSUME(in_k < W);
#ifdef VP_CBMC
  u8 *d = dst.b + W - in_n;
#else
  u8 *d;
  VP_MALLOC(d, in_n);
  memset(d, 0, in_n);
#endif
  bool r = swiftnav_bytestream_get_bytes(&bs, in_pos, in_n, d);
  NATIVE_ENSURE("succeeds exactly when the item fits", r == FITS);
  NATIVE_ENSURE("bytes", in_k >= in_n || d[in_k] == (r ? ITEM(in_k) : 0));
  ENSURE("stream unchanged", bs.data == g_data && bs.len == in_slen &&
         bs.offset == in_off);
  REACH();
}

static u64 item_value(unsigned n) {
  u64 v = 0;
  for (unsigned j = 0; j < n; j++)
    v |= (u64)ITEM(j) << (8 * (in_end == SWIFT_BIG_ENDIAN ? n - 1 - j : j));
  return v;
}
#define DECODE(NAME, T, N)                                                   \
  VP_CONTRACT(bool c_##NAME(swiftnav_bytestream_t *buf, T *dest)              \
    ENS(RET == FITS)                                                          \
    ENS(*dest == (RET ? (T)item_value(N) : (T)in_old))                        \
    ENS(bs.offset == in_off + (RET ? N : 0) && bs.len == in_slen &&           \
        bs.data == g_data && bs.endianess == (enum endianess)in_end)          \
    ASSIGNS(*buf, *dest))                                                     \
  void h_##NAME(void) {                                                       \
    bytes_setup(N, N);                                                        \
    in_pos = 0;                                                               \
    ASSUME(INWIN);                                                            \
    static T out;                                                             \
    out = (T)in_old;                                                          \
    bool r = swiftnav_bytestream_##NAME(&bs, &out);                           \
    NATIVE_ENSURE("succeeds exactly when the item fits", r == FITS);          \
    NATIVE_ENSURE("value", out == (r ? (T)item_value(N) : (T)in_old));        \
    NATIVE_ENSURE("position", bs.offset == in_off + (r ? N : 0) &&            \
          bs.len == in_slen && bs.data == g_data);                            \
    REACH();                                                                  \
  }
DECODE(decode_u8, u8, 1)
DECODE(decode_s8, s8, 1)
DECODE(decode_u16, u16, 2)
DECODE(decode_s16, s16, 2)
DECODE(decode_u32, u32, 4)
DECODE(decode_s32, s32, 4)
DECODE(decode_u64, u64, 8)
DECODE(decode_s64, s64, 8)
