/* C28 UTC and ionosphere parameters, C29 almanac: pages of subframes 4 and 5
 * (IS-GPS-200 20.3.3.5, tables 20-VI, 20-IX, 20-X), BDS-SIS-ICD-2.1 5.2.4.7. */
#include "vp.h"
#include <math.h>
#include <swiftnav/almanac.h>
#include <swiftnav/ionosphere.h>
#include <swiftnav/gnss_time.h>
#include <swiftnav/shm.h>
#include "eph_eq.h"
#include "time_spec.h"
#if defined(VP_CBMC) && defined(VP_OVERRIDE) /* their contracts are those of C15 and C17 */
double __CPROVER_uninterpreted_dt(double, s16, double, s16);
double __CPROVER_uninterpreted_ntow(double, s16);
s16 __CPROVER_uninterpreted_nwn(double, s16);
double gpsdifftime(const gps_time_t *a, const gps_time_t *b) { return __CPROVER_uninterpreted_dt(a->tow, a->wn, b->tow, b->wn); }
void normalize_gps_time(gps_time_t *t) {
  gps_time_t o = *t;
  t->tow = __CPROVER_uninterpreted_ntow(o.tow, o.wn);
  t->wn = __CPROVER_uninterpreted_nwn(o.tow, o.wn);
}
#endif
typedef struct {
  u32 w[10];
} page_t;
IN(page_t, in_w);
IN(u16, in_ref);
IN(utc_params_t, in_u);
IN(ionosphere_t, in_i);
IN(almanac_t, in_a);
IN(almanac_t, in_b);
IN(almanac_health_t, in_h);
IN(almanac_ref_week_t, in_rw);
IN(gps_time_t, in_t);
static s32 sx(u32 v, int n) { return n == 32 ? (s32)v : n == 16 ? (s16)v : n == 8 ? (s8)v : (s32)(v << (32 - n)) >> (32 - n); }
/* bits first..last of word w (3..10), numbered from 1 */
static u32 bf(int w, int first, int last) { return in_w.w[w - 3] >> (30 - last) & ((1u << (last - first + 1)) - 1); }
static void page_in(u32 svid) {
  HAVOC(in_w);
  HAVOC(in_ref);
  HAVOC(in_u);
  HAVOC(in_i);
  HAVOC(in_a);
  HAVOC(in_h);
  HAVOC(in_rw);
  VP_HINT({
    if (vp_rand() % 8) in_w.w[0] = (in_w.w[0] & ~(0xFFu << 22)) | (64 + (vp_rand() % 8 ? svid : svid + 1)) << 22;
    in_w.w[6] = vp_rand() % 2 ? in_w.w[6] : (in_w.w[6] & ~(0xFFu << 6)) | (vp_rand() % 9) << 6;
    in_ref %= 3000;
  });
  ASSUME(in_ref <= 32000);
}
#define MY_PAGE(svid) (bf(3, 1, 2) == 1 && bf(3, 3, 8) == (svid))
static s16 wk256(u32 wn) { /* the first week from the reference on that is congruent */
  s32 k = in_ref - in_ref % 256 + (s32)wn;
  return (s16)(k < in_ref ? k + 256 : k);
}
void h_utc(void) {
  page_in(56);
  utc_params_t u = in_u, x;
  memset(&x, 0, sizeof(x));
  bool ok = MY_PAGE(56) && bf(9, 17, 24) >= 1 && bf(9, 17, 24) <= 7;
  if (ok) {
    x.a1 = sx(bf(6, 1, 24), 24) * C_1_2P50;
    x.a0 = sx(bf(7, 1, 24) << 8 | bf(8, 1, 8), 32) * C_1_2P30;
    x.tot.tow = bf(8, 9, 16) * 4096;
    x.tot.wn = wk256(bf(8, 17, 24));
    x.dt_ls = (s8)bf(9, 1, 8);
    x.dt_lsf = (s8)bf(10, 1, 8);
    x.t_lse.wn = wk256(bf(9, 9, 16));
    x.t_lse.tow = bf(9, 17, 24) * 86400; /* the end of that day */
    normalize_gps_time(&x.t_lse);
    x.t_lse.tow += x.dt_ls + x.a0 + x.a1 * gpsdifftime(&x.t_lse, &x.tot);
    normalize_gps_time(&x.t_lse);
  }
  bool r = decode_utc_parameters_with_wn_ref(in_w.w, &u, in_ref);
  ENSURE("decoded exactly when it is the UTC page with a day of week", r == ok);
  if (ok) {
    ENSURE("polynomial", d_near(u.a0, x.a0) && d_near(u.a1, x.a1));
    ENSURE("reference time", gps_eq(u.tot, x.tot));
    ENSURE("leap seconds", u.dt_ls == x.dt_ls && u.dt_lsf == x.dt_lsf);
    ENSURE("time of the leap second", u.t_lse.wn == x.t_lse.wn && d_same(u.t_lse.tow, x.t_lse.tow)
#ifdef VP_NATIVE
      || fabs(gpsdifftime(&u.t_lse, &x.t_lse)) < 1e-9
#endif
    );
  }
  REACH();
}
void h_iono(void) {
  page_in(56);
  ionosphere_t i = in_i;
  bool ok = MY_PAGE(56), r = decode_iono_parameters(in_w.w, &i);
  ENSURE("decoded exactly when it is the ionosphere page", r == ok);
  if (ok) {
    ENSURE("alpha", d_near(i.a0, sx(bf(3, 9, 16), 8) * C_1_2P30) && d_near(i.a1, sx(bf(3, 17, 24), 8) * C_1_2P27) &&
                        d_near(i.a2, sx(bf(4, 1, 8), 8) * C_1_2P24) && d_near(i.a3, sx(bf(4, 9, 16), 8) * C_1_2P24));
    ENSURE("beta", d_near(i.b0, sx(bf(4, 17, 24), 8) * 2048) && d_near(i.b1, sx(bf(5, 1, 8), 8) * 16384) &&
                       d_near(i.b2, sx(bf(5, 9, 16), 8) * 65536) && d_near(i.b3, sx(bf(5, 17, 24), 8) * 65536));
  }
  REACH();
}
/* D1 subframe 1: bits numbered through the 300 bits of the subframe */
static u32 d1(int first, int last) {
  u32 v = 0;
  for (int b = first; b <= last; b++) v = v << 1 | (in_w.w[(b - 1) / 30] >> (29 - (b - 1) % 30) & 1);
  return v;
}
void h_bds_iono(void) {
  page_in(56);
  ionosphere_t i = in_i;
  decode_bds_d1_iono(in_w.w, &i);
  ENSURE("alpha", d_near(i.a0, sx(d1(127, 134), 8) * C_1_2P30) && d_near(i.a1, sx(d1(135, 142), 8) * C_1_2P27) &&
                      d_near(i.a2, sx(d1(151, 158), 8) * C_1_2P24) && d_near(i.a3, sx(d1(159, 166), 8) * C_1_2P24));
  ENSURE("beta", d_near(i.b0, sx(d1(167, 172) << 2 | d1(181, 182), 8) * 2048) && d_near(i.b1, sx(d1(183, 190), 8) * 16384) &&
                     d_near(i.b2, sx(d1(191, 198), 8) * 65536) && d_near(i.b3, sx(d1(199, 202) << 4 | d1(211, 214), 8) * 65536));
  ENSURE("week", i.toa.wn == (s16)(d1(61, 73) + 1356) && d_same(i.toa.tow, in_i.toa.tow));
  REACH();
}
void h_alm(void) {
  page_in(1 + in_ref % 32);
  u32 sv = bf(3, 3, 8);
  almanac_t a = in_a;
  bool ok = bf(3, 1, 2) == 1 && sv >= 1 && sv <= 32, r = almanac_decode(in_w.w, &a);
  ENSURE("decoded exactly when it is an almanac page", r == ok);
  if (ok) {
    const almanac_kepler_t *k = &a.data.kepler;
    ENSURE("satellite, health, reference time, interval", a.valid == 1 && a.sid.code == CODE_GPS_L1CA && a.sid.sat == sv && a.health_bits == bf(5, 17, 24) &&
      a.toa.wn == WN_UNKNOWN && d_near(a.toa.tow, bf(4, 1, 8) * 4096) && a.fit_interval == 504000 && a.ura == 900);
    ENSURE("eccentricity", d_near(k->ecc, bf(3, 9, 24) * C_1_2P21));
    ENSURE("inclination", d_near(k->inc, sx(bf(4, 9, 24), 16) * (C_1_2P19 * GPS_PI) + (0.30 * GPS_PI)));
    ENSURE("rate of the node", d_near(k->omegadot, sx(bf(5, 1, 16), 16) * (C_1_2P38 * GPS_PI)));
    ENSURE("square root of the axis", d_near(k->sqrta, bf(6, 1, 24) * C_1_2P11));
    ENSURE("node", d_near(k->omega0, sx(bf(7, 1, 24), 24) * (C_1_2P23 * GPS_PI)));
    ENSURE("perigee", d_near(k->w, sx(bf(8, 1, 24), 24) * (C_1_2P23 * GPS_PI)));
    ENSURE("mean anomaly", d_near(k->m0, sx(bf(9, 1, 24), 24) * (C_1_2P23 * GPS_PI)));
    ENSURE("clock", d_near(k->af0, sx(bf(10, 1, 8) << 3 | bf(10, 20, 22), 11) * C_1_2P20) && d_near(k->af1, sx(bf(10, 9, 19), 11) * C_1_2P38));
  }
  REACH();
}
void h_alm_week(void) {
  page_in(51);
  almanac_ref_week_t w = in_rw;
  bool ok = MY_PAGE(51), r = almanac_decode_week_with_wn_ref(in_w.w, &w, in_ref);
  ENSURE("decoded exactly when it is the page with the almanac week", r == ok);
  if (ok) ENSURE("week and time", w.wna == wk256(bf(3, 17, 24)) && w.toa == (s32)bf(3, 9, 16) * 4096);
  REACH();
}
void h_alm_health(void) {
  page_in(in_ref % 2 ? 63 : 51);
  almanac_health_t h = in_h;
  bool p4 = MY_PAGE(63), p5 = MY_PAGE(51), r = almanac_decode_health(in_w.w, &h);
  ENSURE("decoded exactly when it is a health page", r == (p4 || p5));
  if (!r) ENSURE("nothing known from another page", h.health_bits_valid == 0);
  for (u32 sv = 1; sv <= 32; sv++) {
    u32 x = 0;
    bool known = sv <= 24 ? p5 : p4;
    if (sv <= 24) x = bf((int)(4 + (sv - 1) / 4), (int)(1 + (sv - 1) % 4 * 6), (int)(6 + (sv - 1) % 4 * 6));
    else if (sv == 25) x = bf(8, 19, 24);
    else x = bf((int)(9 + (sv - 26) / 4), (int)(1 + (sv - 26) % 4 * 6), (int)(6 + (sv - 26) % 4 * 6));
    ENSURE("known satellites", (h.health_bits_valid >> (sv - 1) & 1) == known);
    if (known) ENSURE("health of the satellite", h.health_bits[sv - 1] == x);
  }
  REACH();
}
void h_alm_valid(void) {
  HAVOC(in_a);
  HAVOC(in_t);
  VP_HINT({
    in_a.sid.code = vp_rand() % 2 ? CODE_GPS_L1CA : CODE_GPS_L2CM;
    in_a.valid = vp_rand() % 8 != 0;
    in_a.health_bits = vp_rand() % 2 ? 0 : (u8)vp_rand();
    in_a.fit_interval = vp_rand() % 4 * 10;
    in_a.toa.wn = (s16)(vp_rand() % 3);
    in_a.toa.tow = (double)(vp_rand() % 100);
    in_t = in_a.toa;
    in_t.tow += (double)(vp_rand() % 41) - 20;
    if (in_t.tow < 0) in_t.tow = 0;
  });
  ASSUME((int)in_a.sid.code >= 0 && (int)in_a.sid.code < CODE_COUNT);
  ASSUME(in_a.fit_interval <= 0x7FFFFFFF);
  ASSUME(in_a.toa.tow >= 0 && in_a.toa.tow < 604800 && in_t.tow >= 0 && in_t.tow < 604800 && in_a.toa.wn >= -1 && in_t.wn >= -1);
  almanac_t before = in_a;
  /* three bits of data health (errors of the other subframes do not matter) and five of signal health */
  u32 dhi = in_a.health_bits >> 5;
  bool data = dhi == 0 || dhi == 2 || dhi == 3 || dhi == 4;
  ENSURE("health", almanac_healthy(&in_a) == (data && check_6bit_health_word(in_a.health_bits & 31, in_a.sid.code)));
  bool x = in_a.valid && almanac_healthy(&in_a) && in_a.fit_interval > 0 && in_a.toa.wn != 0 &&
           !(fabs(gpsdifftime(&in_t, &in_a.toa)) > in_a.fit_interval / 2);
  ENSURE("usable exactly when valid, healthy, stamped and within half its interval", almanac_valid(&in_a, &in_t) == x);
  ENSURE("unchanged", memcmp(&before, &in_a, sizeof(before)) == 0);
  REACH();
}
