/* C27 group delay, satellite clock and the gate of calc_sat_state; C38 orbits
 * (IS-GPS-200 table 20-IV, BDS-SIS-ICD table 5-11, GLONASS ICD A.3.1.2, FAA-E-2892b). */
#include "vp.h"
#include <math.h>
#include <stdio.h>
#include <swiftnav/ephemeris.h>
#include <swiftnav/coord_system.h>
#include <swiftnav/signal.h>
#include <swiftnav/gnss_time.h>
#include <swiftnav/constants.h>
#include <swiftnav/linear_algebra.h>
#include "eph_eq.h"
#include "libm_uf.h"
#define W 604800.0
IN(ephemeris_t, in_e);
IN(gps_time_t, in_t);
IN(u8, in_code);
IN(u8, in_status);
typedef struct {
  double pos[3], vel[3], acc[3], err, rate;
} st_t;
IN(st_t, in_s);
static constellation_t con(const ephemeris_t *e) { return code_to_constellation(e->sid.code); }
#ifdef VP_CBMC
double __CPROVER_uninterpreted_dt(double, s16, double, s16);
double __CPROVER_uninterpreted_ntow(double, s16);
s16 __CPROVER_uninterpreted_nwn(double, s16);
_Bool __CPROVER_uninterpreted_range(double, s16, double, s16, double, s16);
double gpsdifftime(const gps_time_t *a, const gps_time_t *b) { return __CPROVER_uninterpreted_dt(a->tow, a->wn, b->tow, b->wn); }
void normalize_gps_time(gps_time_t *t) {
  gps_time_t o = *t;
  t->tow = __CPROVER_uninterpreted_ntow(o.tow, o.wn);
  t->wn = __CPROVER_uninterpreted_nwn(o.tow, o.wn);
}
bool gpstime_in_range(const gps_time_t *b, const gps_time_t *e, const gps_time_t *t) {
  return __CPROVER_uninterpreted_range(b->tow, b->wn, e->tow, e->wn, t->tow, t->wn);
}
double __CPROVER_uninterpreted_az(double, double, double, double, double, double);
double __CPROVER_uninterpreted_el(double, double, double, double, double, double);
void wgsecef2azel(const double a[3], const double b[3], double *az, double *el) {
  *az = __CPROVER_uninterpreted_az(a[0], a[1], a[2], b[0], b[1], b[2]);
  *el = __CPROVER_uninterpreted_el(a[0], a[1], a[2], b[0], b[1], b[2]);
}
int sid_to_string(char *s, int n, const gnss_signal_t sid) {
  (void)s, (void)n, (void)sid;
  return 0;
}
#define CLOSE(a, b, tol) d_same(a, b)
#else
static bool close_to(double a, double b, double tol) { return d_same(a, b) || fabs(a - b) <= tol || (isnan(a) && isnan(b)); }
#define CLOSE(a, b, tol) close_to(a, b, tol)
#endif
#ifndef VP_NATIVE
#define U(lo, hi) 0.0
#else
#define U(lo, hi) ((lo) + ((hi) - (lo)) * ((double)(vp_rand() >> 11) * 0x1p-53))
#endif
static const code_t GEN[] = {CODE_GPS_L1CA, CODE_QZS_L1CA, CODE_GAL_E1B, CODE_BDS2_B1, CODE_GLO_L1OF, CODE_SBAS_L1CA, CODE_GPS_L2CM,
                             CODE_GPS_L5Q, CODE_QZS_L5I, CODE_QZS_L2CL, CODE_GAL_E7I, CODE_GAL_E5Q, CODE_GAL_E6B, CODE_GAL_E8X, CODE_AUX_GAL,
                             CODE_BDS2_B2, CODE_BDS3_B1CI, CODE_BDS3_B3I, CODE_BDS3_B5I, CODE_BDS3_B3X, CODE_GLO_L2OF, CODE_GLO_L1P, CODE_GLO_L2P, CODE_AUX_GPS, CODE_GPS_L1P, CODE_GPS_L2P};
/* a realistic record of a satellite, for the native runs */
static void gen_eph(void) {
#ifdef VP_NATIVE
  if (!vp_random_mode()) return;
  memset(&in_e, 0, sizeof(in_e));
  in_e.sid.code = GEN[vp_rand() % (sizeof(GEN) / sizeof(GEN[0]))];
  constellation_t c = con(&in_e);
  in_e.sid.sat = 7;
  in_e.valid = vp_rand() % 16 != 0;
  in_e.ura = 2.0f;
  in_e.fit_interval = 14400;
  in_e.health_bits = vp_rand() % 16 == 0;
  in_e.toe.wn = 2100;
  in_e.toe.tow = vp_rand() % 604800;
  in_t = in_e.toe;
  in_t.tow += U(-7000, 7000);
  if (c == CONSTELLATION_GAL || c == CONSTELLATION_BDS) in_t.tow = in_e.toe.tow + U(0, 14000);
  if (in_t.tow < 0) in_t.tow += W, in_t.wn--;
  if (in_t.tow >= W) in_t.tow -= W, in_t.wn++;
  if (vp_rand() % 16 == 0) in_t.wn++;
  in_e.source = EPH_SOURCE_BDS_D1_D2_NAV;
  if (c == CONSTELLATION_GLO) {
    double a = U(-3.1, 3.1), b = U(-1.5, 1.5), r = 25.5e6;
    ephemeris_glo_t *g = &in_e.data.glo;
    g->pos[0] = r * cos(a) * cos(b), g->pos[1] = r * sin(a) * cos(b), g->pos[2] = r * sin(b);
    for (int i = 0; i < 3; i++) g->vel[i] = U(-3500, 3500), g->acc[i] = U(-5e-6, 5e-6);
    g->gamma = U(-1e-9, 1e-9), g->tau = U(-5e-4, 5e-4), g->d_tau = U(-2e-8, 2e-8), g->iod = 3;
  } else if (c == CONSTELLATION_SBAS) {
    ephemeris_xyz_t *g = &in_e.data.xyz;
    for (int i = 0; i < 3; i++) g->pos[i] = U(-4e7, 4e7), g->vel[i] = U(-40, 40), g->acc[i] = U(-.1, .1);
    g->a_gf0 = U(-1e-6, 1e-6), g->a_gf1 = U(-1e-9, 1e-9);
  } else {
    ephemeris_kepler_t *k = &in_e.data.kepler;
    k->toc = in_e.toe;
    k->iode = k->iodc = (u16)(vp_rand() % 200);
    k->tgd.gps_s[0] = (float)U(-2e-8, 2e-8), k->tgd.gps_s[1] = (float)U(-2e-8, 2e-8);
    k->crc = U(-400, 400), k->crs = U(-200, 200);
    k->cuc = U(-1e-5, 1e-5), k->cus = U(-1e-5, 1e-5), k->cic = U(-1e-6, 1e-6), k->cis = U(-1e-6, 1e-6);
    k->dn = U(4e-9, 6e-9), k->m0 = U(-3.1, 3.1), k->ecc = vp_rand() % 4 ? U(0, 0.03) : U(0, 0.2), k->sqrta = U(5100, 6500);
    k->omega0 = U(-3.1, 3.1), k->omegadot = U(-9e-9, 0), k->w = U(-3.1, 3.1), k->inc = U(0.01, 1.2), k->inc_dot = U(-1e-9, 1e-9);
    k->af0 = U(-1e-3, 1e-3), k->af1 = U(-1e-11, 1e-11), k->af2 = vp_rand() % 2 ? 0 : U(-1e-17, 1e-17);
  }
#endif
}
static void eph_in(void) {
  HAVOC(in_e);
  HAVOC(in_t);
  HAVOC(in_s);
  HAVOC(in_status);
  gen_eph();
  ASSUME((int)in_e.sid.code >= 0 && (int)in_e.sid.code < CODE_COUNT);
#ifdef VP_CBMC
  ASSUME(*(const u8 *)&in_e.valid <= 1);
#endif
}
/* ---- group delay ------------------------------------------------------------------ */
static float spec_tgd(const ephemeris_t *e, gnss_signal_t sid, bool *ok) {
  const ephemeris_kepler_t *k = &e->data.kepler;
  constellation_t c = code_to_constellation(sid.code);
  double f = c == CONSTELLATION_GLO || c == CONSTELLATION_BDS ? 1 : sid_to_carr_freq(sid);
  *ok = true;
  switch ((int)sid.code) {
    case CODE_GPS_L5I: case CODE_GPS_L5Q: case CODE_GPS_L5X:
      return (float)(k->tgd.gps_s[1] * (GPS_L1_HZ * GPS_L1_HZ / (f * f)));
    case CODE_QZS_L5I: case CODE_QZS_L5Q: case CODE_QZS_L5X:
      return (float)(k->tgd.gps_s[1] * (QZS_L1_HZ * QZS_L1_HZ / (f * f)));
    case CODE_GAL_E5I: case CODE_GAL_E5Q: case CODE_GAL_E5X: /* E1-E5a combination */
      return (float)(GAL_E1_HZ * GAL_E1_HZ / (f * f) * k->tgd.gal_s[0]);
    case CODE_BDS2_B1: case CODE_BDS3_B1CI: return k->tgd.bds_s[0];
    case CODE_BDS3_B3I: case CODE_BDS3_B3Q: case CODE_BDS3_B3X: return 0.0f; /* the reference of the clock */
    case CODE_GLO_L1OF: case CODE_GLO_L1P: return 0.0f;
    case CODE_GLO_L2OF: case CODE_GLO_L2P: return (float)e->data.glo.d_tau;
    default: break;
  }
  switch ((int)code_to_constellation(sid.code)) {
    case CONSTELLATION_GPS: return (float)(k->tgd.gps_s[0] * (GPS_L1_HZ * GPS_L1_HZ / (f * f)));
    case CONSTELLATION_QZS: return (float)(k->tgd.gps_s[0] * (QZS_L1_HZ * QZS_L1_HZ / (f * f)));
    case CONSTELLATION_GAL: return (float)(GAL_E1_HZ * GAL_E1_HZ / (f * f) * k->tgd.gal_s[1]); /* E1-E5b */
    case CONSTELLATION_BDS: return k->tgd.bds_s[1];
    default: *ok = false; return 0.0f;
  }
}
#define KEPLERIAN(c) ((c) == CONSTELLATION_GPS || (c) == CONSTELLATION_QZS || (c) == CONSTELLATION_GAL || (c) == CONSTELLATION_BDS)
void h_tgd(void) {
  eph_in();
  HAVOC(in_code);
  VP_RANGE(in_code, 0, CODE_COUNT - 1);
#ifdef VP_NATIVE
  if (vp_random_mode()) {
    in_e.sid.code = (code_t)in_code;
    in_e.data.glo.d_tau = 0; /* overlay: no trap values */
    in_e.data.kepler.tgd.gps_s[0] = (float)U(-2e-8, 2e-8), in_e.data.kepler.tgd.gps_s[1] = (float)U(-2e-8, 2e-8);
    if (con(&in_e) == CONSTELLATION_GLO) in_e.data.glo.d_tau = U(-2e-8, 2e-8);
  }
#endif
  gnss_signal_t sid = {.code = (code_t)in_code, .sat = in_e.sid.sat};
  constellation_t c = code_to_constellation(sid.code);
  ASSUME(c == con(&in_e) && (KEPLERIAN(c) || c == CONSTELLATION_GLO));
#ifdef VP_CON
  ASSUME(c == VP_CON);
#endif
  float tgd = 1.0f;
  bool ok;
  float x = spec_tgd(&in_e, sid, &ok);
  ephemeris_t before = in_e;
  s8 r = get_tgd_correction(&in_e, &sid, &tgd);
  ENSURE("a group delay exists exactly for the signals that have one", r == (ok ? 0 : -1));
  if (ok) ENSURE("group delay of the signal, scaled to its frequency", vp_fbits(tgd) == vp_fbits(x) || (double)tgd == (double)x
#ifdef VP_NATIVE
    || fabs((double)tgd - (double)x) <= 1e-6 * fabs((double)x)
#endif
  );
  REACH();
}
/* ---- clock and state ---------------------------------------------------------------- */
static bool same_state(const st_t *a, const st_t *b) {
  return memcmp(a, b, sizeof(*a)) == 0;
}
#define CALL(f, ...) f(__VA_ARGS__, s.pos, s.vel, s.acc, &s.err, &s.rate)
/* the gate: an unusable record yields nothing */
#ifdef VP_CBMC
/* the verdict is the subject of another property */
ephemeris_status_t c_verdict(const ephemeris_t *e, const gps_time_t *t)
REQ(e == &in_e && t == &in_t)
ASSIGNS()
ENS(__CPROVER_return_value == (ephemeris_status_t)in_status);
/* and this must not be reached */
s8 c_never(const ephemeris_t *e, const gps_time_t *t, const satellite_orbit_type_t orbit_type, double pos[3], double vel[3], double acc[3], double *clock_err, double *clock_rate_err)
REQ(0)
ASSIGNS();
#endif
void h_gate(void) {
  eph_in();
#ifdef VP_CBMC
  ASSUME((int)in_e.toe.tow != TOW_UNKNOWN && (int)in_t.tow != TOW_UNKNOWN);
#endif
  ASSUME(in_e.toe.wn >= 0 && in_t.wn >= 0);
  st_t s = in_s, b = in_s;
  ephemeris_status_t st = ephemeris_valid_detailed(&in_e, &in_t);
#ifdef VP_CBMC
  ASSUME(st != EPH_VALID);
#else
  if (st == EPH_VALID) {
    constellation_t c = con(&in_e);
    bool ok = true;
    if (c != CONSTELLATION_SBAS) spec_tgd(&in_e, in_e.sid, &ok);
    ENSURE("a usable record yields a state", CALL(calc_sat_state, &in_e, &in_t) == (ok ? 0 : -1));
    return;
  }
#endif
  ENSURE("no state from an unusable record", CALL(calc_sat_state, &in_e, &in_t) == -1);
  ENSURE("no state from an unusable record, any orbit", CALL(calc_sat_state_orbit_type, &in_e, &in_t, GEO) == -1);
  ENSURE("and nothing is written", same_state(&s, &b));
  double az = in_s.err, el = in_s.rate, dop = in_s.err;
  ENSURE("no azimuth or Doppler either", calc_sat_az_el(&in_e, &in_t, in_s.pos, MEO, &az, &el, true) == -1 && d_same(az, in_s.err) && d_same(el, in_s.rate) &&
         calc_sat_doppler(&in_e, &in_t, in_s.pos, in_s.vel, MEO, &dop) == -1 && d_same(dop, in_s.err));
  REACH();
}
static void sbas_state(const ephemeris_t *e, double tk, st_t *x) {
  const ephemeris_xyz_t *g = &e->data.xyz;
  x->rate = g->a_gf1;
  x->err = g->a_gf0 + tk * g->a_gf1;
  double dt = tk - x->err;
  for (int i = 0; i < 3; i++) {
    x->pos[i] = g->pos[i] + g->vel[i] * dt + 0.5 * g->acc[i] * (dt * dt);
    x->vel[i] = g->vel[i] + g->acc[i] * dt;
    x->acc[i] = g->acc[i];
  }
}
/* GLONASS ICD A.3.1.2: y = position and velocity, d = its derivative */
static void glo_rhs(double d[6], const double y[6], const double ls[3]) {
  const double mu = 3.986004418e14, J = 1.08262575e-3, ae = 6378136.0, om = 7.292115e-5;
  double r = sqrt(y[0] * y[0] + y[1] * y[1] + y[2] * y[2]);
  double mr = mu / (r * r * r), ir2 = 1 / (r * r);
  double g = 3.0 / 2.0 * J * mr * ae * ae * ir2, l = 1.0 - 5.0 * y[2] * y[2] * ir2;
  d[0] = y[3];
  d[1] = y[4];
  d[2] = y[5];
  d[3] = -mr * y[0] - g * y[0] * l + om * om * y[0] + 2.0 * om * y[4] + ls[0];
  d[4] = -mr * y[1] - g * y[1] * l + om * om * y[1] - 2.0 * om * y[3] + ls[1];
  d[5] = -mr * y[2] - g * y[2] * (2.0 + l) + ls[2];
}
static u32 glo_steps(double dt) {
  u32 n = (u32)ceil(fabs(dt) / 30);
  return n < 30 ? n : 30;
}
static void glo_clock(const ephemeris_t *e, double tk, double tgd, st_t *x) {
  x->rate = e->data.glo.gamma;
  x->err = -e->data.glo.tau + e->data.glo.gamma * tk - tgd;
}
static void glo_state(const ephemeris_t *e, double dt, u32 n, st_t *x) {
  double y[6];
  for (int j = 0; j < 3; j++) y[j] = e->data.glo.pos[j], y[3 + j] = e->data.glo.vel[j];
  const double *ls = e->data.glo.acc;
  for (u32 i = 0; i < n; i++) { /* Runge-Kutta, fourth order */
    double h = dt / n, k1[6], k2[6], k3[6], k4[6], z[6];
    glo_rhs(k1, y, ls);
    for (int j = 0; j < 6; j++) z[j] = y[j] + h / 2 * k1[j];
    glo_rhs(k2, z, ls);
    for (int j = 0; j < 6; j++) z[j] = y[j] + h / 2 * k2[j];
    glo_rhs(k3, z, ls);
    for (int j = 0; j < 6; j++) z[j] = y[j] + h * k3[j];
    glo_rhs(k4, z, ls);
    for (int j = 0; j < 6; j++) y[j] += h / 6 * (k1[j] + 2 * k2[j] + 2 * k3[j] + k4[j]);
  }
  double d[6];
  glo_rhs(d, y, ls);
  for (int j = 0; j < 3; j++) x->pos[j] = y[j], x->vel[j] = y[3 + j], x->acc[j] = d[3 + j];
}
/* IS-GPS-200 tables 20-IV and 30-II */
static void kepler_state(const ephemeris_t *e, double tkc, double tke, double tgd, bool geo, st_t *x) {
  const ephemeris_kepler_t *k = &e->data.kepler;
  constellation_t c = con(e);
  bool bds = c == CONSTELLATION_BDS;
  double mu = c == CONSTELLATION_GPS || c == CONSTELLATION_QZS ? 3.986005e14 : 3.986004418e14;
  double we = bds ? 7.292115e-5 : 7.2921151467e-5;
  x->err = k->af0 + tkc * (k->af1 + tkc * k->af2) - tgd;
  x->rate = k->af1 + 2.0 * tkc * k->af2;
  double tk = tke - x->err;
  double A = k->sqrta * k->sqrta;
  double n = sqrt(mu / (A * A * A)) + k->dn;
  double M = k->m0 + n * tk;
  double E = M, Eo, q;
  int cnt = 0;
  do { /* Kepler's equation by Newton's method */
    Eo = E;
    q = 1.0 - k->ecc * cos(Eo);
    E = E + (M - Eo + k->ecc * sin(Eo)) / q;
    cnt++;
    if (cnt > 5) break;
  } while (fabs(E - Eo) > 1e-14);
  double Ed = n / q, Edd = -Ed * Ed * k->ecc * sin(E) / q;
  double se = sqrt(1.0 - k->ecc * k->ecc);
  double ph = atan2(se * sin(E), cos(E) - k->ecc) + k->w;
  double phd = se * Ed / q, phdd = 2 * phd * Edd / Ed, phd2 = phd * phd;
  double s2 = sin(2.0 * ph), c2 = cos(2.0 * ph);
  double du = k->cus * s2 + k->cuc * c2, dud = 2 * phd * (k->cus * c2 - k->cuc * s2), dudd = -4 * phd2 * du + phdd / phd * dud;
  double u = ph + du, ud = phd + dud, udd = phdd + dudd;
  double dr = k->crs * s2 + k->crc * c2, drd = 2 * phd * (k->crs * c2 - k->crc * s2);
  double drdd = -4 * phd2 * dr + phdd / phd * drd;
  double r = A * q + k->crc * c2 + k->crs * s2;
  double rd = A * k->ecc * sin(E) * Ed + 2.0 * phd * (k->crs * c2 - k->crc * s2);
  double rdd = A * k->ecc * Ed * Ed * cos(E) + A * k->ecc * Edd * sin(E) + drdd;
  x->err += -2.0 * r * rd / GPS_C / GPS_C; /* relativity */
  double di = k->cis * s2 + k->cic * c2, did = 2 * phd * (k->cis * c2 - k->cic * s2), didd = -4 * phd2 * di + phdd / phd * did;
  double i = k->inc + k->inc_dot * tk + k->cic * c2 + k->cis * s2;
  double id = k->inc_dot + 2.0 * phd * (k->cis * c2 - k->cic * s2);
  double xp = r * cos(u), yp = r * sin(u);
  double xd = rd * cos(u) - yp * ud, yd = rd * sin(u) + xp * ud;
  double xdd = -(ud * ud) * xp - udd * yp - 2 * ud * rd * sin(u) + rdd * cos(u);
  double ydd = -(ud * ud) * yp + udd * xp + 2 * ud * rd * cos(u) + rdd * sin(u);
  double od = bds && geo ? k->omegadot : k->omegadot - we;
  double om = k->omega0 + tk * od - we * (bds ? e->toe.tow - 14 : e->toe.tow);
  double p[3] = {xp * cos(om) - yp * cos(i) * sin(om), xp * sin(om) + yp * cos(i) * cos(om), yp * sin(i)};
  if (geo) { /* rotation by -5 degrees about x, then by we tk about z */
    double sw = sin(we * tk), cw = cos(we * tk);
    x->pos[0] = p[0] * cw + p[1] * sw * 0.9961946980917456 + p[2] * sw * -0.0871557427476582;
    x->pos[1] = -p[0] * sw + p[1] * cw * 0.9961946980917456 + p[2] * cw * -0.0871557427476582;
    x->pos[2] = -p[1] * -0.0871557427476582 + p[2] * 0.9961946980917456;
    return;
  }
  for (int j = 0; j < 3; j++) x->pos[j] = p[j];
  double t = yd * cos(i) - yp * sin(i) * id;
  x->vel[0] = -od * x->pos[1] + xd * cos(om) - t * sin(om);
  x->vel[1] = od * x->pos[0] + xd * sin(om) + t * cos(om);
  x->vel[2] = yp * cos(i) * id + yd * sin(i);
  double a1 = x->vel[2] * id - od * xd + yp * didd * sin(i) - ydd * cos(i) + id * yd * sin(i);
  double a2 = xdd + yp * od * id * sin(i) - od * yd * cos(i);
  x->acc[0] = -od * x->vel[1] + sin(om) * a1 + cos(om) * a2;
  x->acc[1] = od * x->vel[0] - cos(om) * a1 + sin(om) * a2;
  x->acc[2] = sin(i) * (-yp * id * id + ydd) + cos(i) * (yp * didd + 2 * id * yd);
}
#ifndef VP_ORBIT
#define VP_ORBIT MEO
#endif
void h_state(void) {
  eph_in();
#ifdef VP_CODE
#ifdef VP_NATIVE
  if (in_e.sid.code != VP_CODE) vp_skip();
#else
  in_e.sid.code = VP_CODE;
#endif
#endif
  constellation_t c = con(&in_e);
  ASSUME(c != CONSTELLATION_INVALID && c != CONSTELLATION_COUNT);
#ifdef VP_CBMC
  /* the member of the union that is in use */
  if (c == CONSTELLATION_SBAS) {
    ephemeris_xyz_t g;
    in_e.data.xyz = g;
  } else if (c == CONSTELLATION_GLO) {
    ephemeris_glo_t g;
    in_e.data.glo = g;
  }
#endif
  st_t s = in_s, x = in_s;
  bool ok = true;
  double tgd = 0, tk = gpsdifftime(&in_t, &in_e.toe);
  if (c != CONSTELLATION_SBAS) {
#ifdef VP_CBMC
    float f; /* goal "group-delay" */
    ok = get_tgd_correction(&in_e, &in_e.sid, &f) == 0;
    tgd = f;
#else
    tgd = spec_tgd(&in_e, in_e.sid, &ok);
#endif
  }
  ASSUME(ok);
  if (c == CONSTELLATION_SBAS) {
    sbas_state(&in_e, tk, &x);
  } else if (c == CONSTELLATION_GLO) {
    glo_clock(&in_e, tk, tgd, &x);
    double dt = tk - x.err;
    u32 n = glo_steps(dt);
    glo_state(&in_e, dt, n, &x);
  } else {
    kepler_state(&in_e, gpsdifftime(&in_t, &in_e.data.kepler.toc), tk, tgd, VP_ORBIT == GEO, &x);
  }
  ENSURE("a state is computed", CALL(calc_sat_state_n, &in_e, &in_t, VP_ORBIT) == 0);
  ENSURE("clock error", CLOSE(s.err, x.err, 1e-15));
  ENSURE("clock rate", CLOSE(s.rate, x.rate, 1e-20));
  for (int j = 0; j < 3; j++) ENSURE("position", CLOSE(s.pos[j], x.pos[j], 1e-4));
  if (VP_ORBIT != GEO || c != CONSTELLATION_BDS) {
    for (int j = 0; j < 3; j++) ENSURE("velocity", CLOSE(s.vel[j], x.vel[j], 1e-7));
    for (int j = 0; j < 3; j++) ENSURE("acceleration", CLOSE(s.acc[j], x.acc[j], 1e-9));
  }
#ifdef VP_NATIVE
  if (VP_ORBIT != GEO) { /* velocity and acceleration are derivatives of the position */
    st_t a, b;
    gps_time_t ta = in_t, tb = in_t;
    ta.tow -= 0.5, tb.tow += 0.5;
    if (c != CONSTELLATION_GLO && fabs(ta.tow) < 6e5 && ta.tow > 0 && tb.tow < W &&
        calc_sat_state_n(&in_e, &ta, VP_ORBIT, a.pos, a.vel, a.acc, &a.err, &a.rate) == 0 &&
        calc_sat_state_n(&in_e, &tb, VP_ORBIT, b.pos, b.vel, b.acc, &b.err, &b.rate) == 0)
      for (int j = 0; j < 3; j++) {
        if (getenv("VP_PRINT")) printf("%d %g %g\n", (int)c, s.vel[j] - (b.pos[j] - a.pos[j]), s.acc[j] - (b.vel[j] - a.vel[j]));
        ENSURE("velocity is the rate of the position", close_to(s.vel[j], b.pos[j] - a.pos[j], 1e-3));
        ENSURE("acceleration is the rate of the velocity", close_to(s.acc[j], b.vel[j] - a.vel[j], 1e-3));
      }
  }
#endif
  REACH();
}
/* Doppler shift: line-of-sight component of the relative velocity; and the line of sight */
void h_doppler(void) {
  eph_in();
#ifdef VP_NATIVE
  if (vp_random_mode()) {
    for (int i = 0; i < 3; i++) in_s.pos[i] = U(-4e6, 4e6), in_s.vel[i] = U(-300, 300);
    in_t = in_e.toe;
    in_e.valid = 1;
    in_e.health_bits = 0;
  }
#else
  in_e.sid.code = CODE_SBAS_L1CA;
  ephemeris_xyz_t g;
  in_e.data.xyz = g;
  in_t = in_e.toe;
  ASSUME((int)in_t.tow != TOW_UNKNOWN && in_t.wn >= 0);
#endif
  st_t s = in_s;
  double dop = 1, az = 1, el = 1, xa = 2, xe = 2;
  int r = calc_sat_state_orbit_type(&in_e, &in_t, MEO, s.pos, s.vel, s.acc, &s.err, &s.rate);
  ASSUME(r == 0);
  double los[3], rel[3];
  vector_subtract(3, s.pos, in_s.pos, los);
  vector_subtract(3, s.vel, in_s.vel, rel);
  double rr = vector_dot(3, los, rel) / vector_norm(3, los);
#ifdef VP_NATIVE
  if (code_to_constellation(in_e.sid.code) == CONSTELLATION_GLO) vp_skip();
#endif
  double x = sid_to_carr_freq(in_e.sid) * rr / GPS_C;
  wgsecef2azel(s.pos, in_s.pos, &xa, &xe);
  ENSURE("Doppler is computed", calc_sat_doppler(&in_e, &in_t, in_s.pos, in_s.vel, MEO, &dop) == 0);
  ENSURE("Doppler shift", CLOSE(dop, x, 1e-6));
  ENSURE("azimuth and elevation", calc_sat_az_el(&in_e, &in_t, in_s.pos, MEO, &az, &el, true) == 0 && CLOSE(az, xa, 1e-12) && CLOSE(el, xe, 1e-12));
  REACH();
}
