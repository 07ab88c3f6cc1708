/* any GPS time as harness input */
#ifndef TIME_IN_H
#define TIME_IN_H
#include "vp.h"
#include <swiftnav/gnss_time.h>
#include <swiftnav/signal.h>
#include "time_spec.h"
VP_LOG_SID_STUB
IN(gps_time_t, in_t);
static bool valid(const gps_time_t *t) { return t->wn >= 0 && t->tow >= 0 && t->tow < W; }
#ifdef VP_CBMC
#define SHAPE(v) ((void)0)
#else
static void vp_shape(gps_time_t *t) { /* random inputs only */
  if (!vp_random_mode()) return;
  t->wn = (s16)(vp_rand() % 8 ? vp_rand() % 2400 : vp_rand());
  t->tow = (double)(vp_rand() % 604800) + (vp_rand() % 4 ? 0 : (vp_rand() % 1000) / 1000.0);
  if (vp_rand() % 6 == 0) t->tow = (double)(vp_rand() % 4) - 2 + (vp_rand() % 3) * W / 2 + (vp_rand() % 3 ? 0 : 1e-9);
  if (vp_rand() % 12 == 0) t->tow = -1e-12;
  if (vp_rand() % 16 == 0) t->wn = -1;
}
#define SHAPE(v) vp_shape(&(v))
#endif
#define TIME(v)                                    \
  do {                                             \
    HAVOC(v);                                      \
    SHAPE(v);                                      \
  } while (0)
#define VALID_TIME(v) \
  do {                \
    TIME(v);          \
    ASSUME(valid(&v)); \
  } while (0)
#endif
