/* comparison of ephemeris records member by member, doubles by bit pattern */
#ifndef EPH_EQ_H
#define EPH_EQ_H
#include <swiftnav/ephemeris.h>
static u64 vp_dbits(double d) {
  u64 u;
  memcpy(&u, &d, 8);
  return u;
}
static u32 vp_fbits(float f) {
  u32 u;
  memcpy(&u, &f, 4);
  return u;
}
static bool d_same(double a, double b) { return vp_dbits(a) == vp_dbits(b); }
/* equal as numbers, or both the same bit pattern (NaN) */
static bool d_eq(double a, double b) { return a == b || d_same(a, b); }
static bool f_eq(float a, float b) { return a == b || vp_fbits(a) == vp_fbits(b); }
/* within a few units in the last place: the library's decimal constants for
 * powers of two are off by an ulp or two */
#ifndef VP_ULPS
#define VP_ULPS 8
#endif
static bool d_near(double a, double b) {
  u64 x = vp_dbits(a), y = vp_dbits(b);
  u64 d = x > y ? x - y : y - x;
  return d_eq(a, b) || d <= VP_ULPS;
}
static bool f_near(float a, float b) {
  u32 x = vp_fbits(a), y = vp_fbits(b);
  return f_eq(a, b) || (x > y ? x - y : y - x) <= 2;
}
static bool gps_eq(gps_time_t a, gps_time_t b) { return d_eq(a.tow, b.tow) && a.wn == b.wn; }
static bool eph_head_eq(const ephemeris_t *a, const ephemeris_t *b) {
  return a->sid.sat == b->sid.sat && a->sid.code == b->sid.code && gps_eq(a->toe, b->toe) &&
         f_eq(a->ura, b->ura) && a->fit_interval == b->fit_interval && a->valid == b->valid &&
         a->health_bits == b->health_bits && a->source == b->source;
}
static bool eph_glo_eq(const ephemeris_t *a, const ephemeris_t *b) {
  const ephemeris_glo_t *x = &a->data.glo, *y = &b->data.glo;
  bool r = eph_head_eq(a, b) && d_near(x->gamma, y->gamma) && d_near(x->tau, y->tau) &&
           d_near(x->d_tau, y->d_tau) && x->fcn == y->fcn && x->iod == y->iod;
  for (int i = 0; i < 3; i++)
    r = r && d_near(x->pos[i], y->pos[i]) && d_near(x->vel[i], y->vel[i]) && d_near(x->acc[i], y->acc[i]);
  return r;
}
static bool eph_kepler_eq(const ephemeris_t *a, const ephemeris_t *b) {
  const ephemeris_kepler_t *x = &a->data.kepler, *y = &b->data.kepler;
  return eph_head_eq(a, b) && f_near(x->tgd.gps_s[0], y->tgd.gps_s[0]) && f_near(x->tgd.gps_s[1], y->tgd.gps_s[1]) &&
         d_near(x->crc, y->crc) && d_near(x->crs, y->crs) && d_near(x->cuc, y->cuc) && d_near(x->cus, y->cus) &&
         d_near(x->cic, y->cic) && d_near(x->cis, y->cis) && d_near(x->dn, y->dn) && d_near(x->m0, y->m0) &&
         d_near(x->ecc, y->ecc) && d_near(x->sqrta, y->sqrta) && d_near(x->omega0, y->omega0) &&
         d_near(x->omegadot, y->omegadot) && d_near(x->w, y->w) && d_near(x->inc, y->inc) &&
         d_near(x->inc_dot, y->inc_dot) && d_near(x->af0, y->af0) && d_near(x->af1, y->af1) &&
         d_near(x->af2, y->af2) && gps_eq(x->toc, y->toc) && x->iodc == y->iodc && x->iode == y->iode;
}
static bool glo_time_eq(const glo_time_t *a, const glo_time_t *b) {
  return a->nt == b->nt && a->n4 == b->n4 && a->h == b->h && a->m == b->m && d_eq(a->s, b->s);
}
#endif
