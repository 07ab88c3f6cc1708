/* C07: the byte FIFO. The queue held by a FIFO is the sequence
 *   element(i) = buffer[(read_index + i) mod size],  0 <= i < write - read
 * (indices are free-running 32-bit counters). */
#include "vp.h"
#include <swiftnav/fifo_byte.h>
IN(u32, in_size);
#ifdef VP_SYM /* any power of two: operations that touch no stored byte */
#define SZ in_size
#define BN 1
#else
#ifndef SZ
#define SZ 16
#endif
#define BN SZ
#endif
struct buf { u8 b[BN]; };
IN(struct buf, in_b);   /* storage */
IN(struct buf, in_u);   /* caller's bytes */
IN(u32, in_r);
IN(u32, in_w);
IN(u32, in_n);
IN(u32, in_k);
static struct buf st, us;
static fifo_t f;
static u8 *store, *user;

#define SLOT(i) (((u32)(i)) & (SZ - 1u))
#define LEN ((u32)(in_w - in_r))
#define MINU(a, b) ((a) < (b) ? (a) : (b))
#define GET_N MINU(in_n, LEN)
#define PUT_N MINU(in_n, (u32)SZ - LEN)
#define HEAD(r, w) (f.read_index == (u32)(r) && f.write_index == (u32)(w) && \
                    f.buffer_size == SZ && f.buffer == store)
#define STATE REQ(fifo == &f && HEAD(in_r, in_w) && LEN <= SZ)
/* every element present before is still there, in place */
#define KEPT (in_k >= LEN || store[SLOT(in_r + in_k)] == in_b.b[SLOT(in_r + in_k)])

#define P_INIT (f.read_index == f.write_index && f.buffer_size == SZ && f.buffer == store)
VP_CONTRACT(void fifo_init(fifo_t *fifo, uint8_t *buffer, fifo_size_t size)
  REQ(fifo == &f && buffer == store && size == SZ) ENS(P_INIT) ASSIGNS(f))
VP_CONTRACT(fifo_size_t fifo_length(fifo_t *fifo) STATE ENS(RET == LEN) ASSIGNS())
VP_CONTRACT(fifo_size_t fifo_space(fifo_t *fifo) STATE ENS(RET == SZ - LEN) ASSIGNS())
#define GOT(ret) (in_k >= (ret) || user[in_k] == in_b.b[SLOT(in_r + in_k)])
VP_CONTRACT(fifo_size_t fifo_peek(fifo_t *fifo, uint8_t *buffer, fifo_size_t length)
  STATE REQ(buffer == user && length == in_n)
  ENS(RET == GET_N) ENS(GOT(RET)) ENS(HEAD(in_r, in_w)) ASSIGNS(us))
VP_CONTRACT(fifo_size_t fifo_read(fifo_t *fifo, uint8_t *buffer, fifo_size_t length)
  STATE REQ(buffer == user && length == in_n)
  ENS(RET == GET_N) ENS(GOT(RET)) ENS(HEAD(in_r + RET, in_w)) ASSIGNS(us, f.read_index))
VP_CONTRACT(fifo_size_t fifo_remove(fifo_t *fifo, fifo_size_t length)
  STATE REQ(length == in_n)
  ENS(RET == GET_N) ENS(HEAD(in_r + RET, in_w)) ASSIGNS(f.read_index))
#define PUT(ret) (in_k >= (ret) || store[SLOT(in_w + in_k)] == user[in_k])
VP_CONTRACT(fifo_size_t fifo_write(fifo_t *fifo, const uint8_t *buffer, fifo_size_t length)
  STATE REQ(buffer == user && length == in_n)
  ENS(RET == PUT_N) ENS(PUT(RET)) ENS(KEPT) ENS(HEAD(in_r, in_w + RET))
  ASSIGNS(st, f.write_index))

static void setup(void) {
#ifdef VP_SYM
  HAVOC(in_size);
  VP_HINT(in_size = 1u << (vp_rand() % 32));
  ASSUME(in_size != 0 && (in_size & (in_size - 1)) == 0);
#endif
  HAVOC(in_b);
  HAVOC(in_u);
  HAVOC(in_r);
  HAVOC(in_w);
  HAVOC(in_n);
  HAVOC(in_k);
  VP_HINT(in_w = in_r + (u32)(vp_rand() % (SZ + 1ull)); in_k %= SZ;
          if (vp_rand() % 4) in_n %= 2 * SZ);
  ASSUME(LEN <= SZ);
  ASSUME(in_k < SZ);
  st = in_b;
  us = in_u;
#ifdef VP_CBMC
  store = st.b;
#else
  VP_MALLOC(store, BN);
  memcpy(store, in_b.b, BN);
#endif
  f.read_index = in_r;
  f.write_index = in_w;
  f.buffer_size = SZ;
  f.buffer = store;
}
/* the caller's buffer holds exactly n bytes */
static void user_setup(u32 n) {
#ifdef VP_CBMC
  user = us.b + (SZ - n);
#else
  VP_MALLOC(user, n);
  memcpy(user, in_u.b + (SZ - n), n);
#endif
}
void h_init(void) {
  setup();
  fifo_init(&f, store, SZ);
  NATIVE_ENSURE("empty", P_INIT);
  REACH();
}
void h_length(void) {
  setup();
  u32 r = fifo_length(&f);
  NATIVE_ENSURE("length", r == LEN);
  REACH();
}
void h_space(void) {
  setup();
  u32 r = fifo_space(&f);
  NATIVE_ENSURE("space", r == SZ - LEN);
  REACH();
}
#define UNCHANGED ENSURE("stored bytes unchanged", \
    store[in_k % BN] == in_b.b[in_k % BN])
void h_peek(void) {
  setup();
  user_setup(GET_N);
  u32 r = fifo_peek(&f, user, in_n);
  NATIVE_ENSURE("count", r == GET_N);
  NATIVE_ENSURE("bytes", GOT(r));
  NATIVE_ENSURE("indices", HEAD(in_r, in_w));
  UNCHANGED;
  REACH();
}
void h_read(void) {
  setup();
  user_setup(GET_N);
  u32 r = fifo_read(&f, user, in_n);
  NATIVE_ENSURE("count", r == GET_N);
  NATIVE_ENSURE("bytes", GOT(r));
  NATIVE_ENSURE("indices", HEAD(in_r + r, in_w));
  UNCHANGED;
  REACH();
}
void h_remove(void) {
  setup();
  u32 r = fifo_remove(&f, in_n);
  NATIVE_ENSURE("count", r == GET_N);
  NATIVE_ENSURE("indices", HEAD(in_r + r, in_w));
  UNCHANGED;
  REACH();
}
void h_write(void) {
  setup();
  user_setup(PUT_N);
  u32 r = fifo_write(&f, user, in_n);
  NATIVE_ENSURE("count", r == PUT_N);
  NATIVE_ENSURE("bytes", PUT(r));
  NATIVE_ENSURE("queued bytes kept", KEPT);
  NATIVE_ENSURE("indices", HEAD(in_r, in_w + r));
  ENSURE("caller's bytes unchanged", in_k >= PUT_N ||
         user[in_k] == in_u.b[SZ - PUT_N + in_k]);
  REACH();
}
