/* C24 status and validity interval of an ephemeris; C25 health words;
 * C37 assembly of a GLONASS ephemeris. */
#include "vp.h"
#include <math.h>
#include <swiftnav/ephemeris.h>
#include <swiftnav/decode_glo.h>
#include <swiftnav/shm.h>
#include <swiftnav/signal.h>
#include <swiftnav/gnss_time.h>
IN(ephemeris_t, in_e);
IN(gps_time_t, in_t);
#define WEEK 604800
static constellation_t con(const ephemeris_t *e) { return code_to_constellation(e->sid.code); }
/* issue of data: range, and agreement of clock and orbit where the message defines it */
static bool iod_ok(const ephemeris_t *e) {
  u32 c = e->data.kepler.iodc, o = e->data.kepler.iode;
  switch ((int)con(e)) {
    case CONSTELLATION_GPS:
    case CONSTELLATION_QZS:
      return c <= 1023 && o <= 255 && (c & 255) == o;
    case CONSTELLATION_BDS:
      return e->source == EPH_SOURCE_BDS_D1_D2_NAV ? c <= 240 && o <= 240 : c <= 1023 && o <= 255 && (c & 255) == o;
    case CONSTELLATION_GAL:
      return c <= 1023 && c == o;
    case CONSTELLATION_GLO:
      return e->data.glo.iod <= 127;
    default:
      return true;
  }
}
/* IS-GPS-200 table 20-VIII: bit 0 L1, bit 1 L2; which of the codes of the five-bit
 * word say that the P or the C/A (civil) part of that band is not usable */
static bool bad_signal(u8 b, int band, bool p) {
  if ((b >= 1 && b <= 3) || b >= 28) return true;
  int c = (b - 4) / 3; /* L1P L2P L1C L2C L1L2P L1L2C L1 L2 */
  if (b < 4) return false;
  switch (c) {
    case 0: return band == 1 && p;
    case 1: return band == 2 && p;
    case 2: return band == 1 && !p;
    case 3: return band == 2 && !p;
    case 4: return p;
    case 5: return !p;
    case 6: return band == 1;
    default: return band == 2;
  }
}
static int band_of(code_t c) {
  switch ((int)c) {
    case CODE_GPS_L1CA: case CODE_AUX_GPS: case CODE_QZS_L1CA: case CODE_AUX_QZS: case CODE_GPS_L1P: return 1;
    case CODE_GPS_L2CM: case CODE_GPS_L2CL: case CODE_GPS_L2CX: case CODE_QZS_L2CM: case CODE_QZS_L2CL: case CODE_QZS_L2CX: case CODE_GPS_L2P: return 2;
    default: return 0;
  }
}
static bool spec_health6(u8 h, code_t c) {
  if ((c == CODE_GPS_L1CA || c == CODE_AUX_GPS || c == CODE_GPS_L1P) && (h >> 5 & 1)) return false;
  u8 b = h & 31;
  if ((b >= 1 && b <= 3) || b >= 28) return false;
  int n = band_of(c);
  return n == 0 || !bad_signal(b, n, c == CODE_GPS_L1P || c == CODE_GPS_L2P);
}
static bool spec_healthy(const ephemeris_t *e, code_t c) {
  if (!e->valid) return true;
  switch ((int)code_to_constellation(c)) {
    case CONSTELLATION_GPS:
      return e->ura >= 0 && e->ura <= 6144.0f && spec_health6(e->health_bits, c);
    case CONSTELLATION_SBAS:
    case CONSTELLATION_QZS:
      return e->health_bits == 0;
    default:
      return e->ura >= 0 && e->health_bits == 0;
  }
}
static ephemeris_status_t spec_status(const ephemeris_t *e) {
  return !e->valid ? EPH_INVALID : e->toe.wn == 0 ? EPH_WN_EQ_0 : e->fit_interval == 0 ? EPH_FIT_INTERVAL_EQ_0
         : !spec_healthy(e, e->sid.code) ? EPH_UNHEALTHY : !iod_ok(e) ? EPH_INVALID_IOD : EPH_VALID;
}
IN(u8, in_code);
IN(u8, in_word);
IN(u8, in_mask);
void h_health(void) {
  HAVOC(in_code);
  HAVOC(in_word);
  HAVOC(in_mask);
  VP_RANGE(in_code, 0, CODE_COUNT - 1);
  code_t c = (code_t)in_code;
  u8 w = in_word;
  bool six = check_6bit_health_word(w, c);
  ENSURE("six-bit word as in table 20-VIII", six == spec_health6(w, c));
  u8 d = w >> 5;
  ENSURE("data health indication, with masked errors", check_nav_dhi(w, in_mask) == (d == 0 || (in_mask >> d & 1)));
  ENSURE("eight-bit word: data and signal both good", check_8bit_health_word(w, c) == (d == 0 && six));
  ENSURE("page 25: six ones means not available", check_alma_page25_health_word(w, c) == six);
  u8 out;
  u32 w3 = (u32)w << 24 | (u32)in_mask << 8 | in_code;
  shm_gps_decode_shi_ephemeris(w3, &out);
  ENSURE("health bits of word three", out == (in_mask & 63));
  REACH();
}
static void eph_in(void) {
  HAVOC(in_e);
#ifndef VP_CBMC
  if (vp_random_mode()) {
    in_e.sid.code = (code_t)(vp_rand() % CODE_COUNT);
    in_e.valid = vp_rand() % 8 != 0;
    if (vp_rand() % 4) in_e.health_bits = 0;
    in_e.ura = vp_rand() % 8 ? (float)(vp_rand() % 7000) : -1.0f;
    in_e.fit_interval = vp_rand() % 8 ? 14400 : 0;
    in_e.data.kepler.iode &= 511;
    if (vp_rand() % 4) in_e.data.kepler.iodc = in_e.data.kepler.iode;
    in_e.toe.wn = vp_rand() % 8 ? 2000 : 0;
  } else
#endif
  {
    ASSUME(*(const u8 *)&in_e.valid <= 1);
  }
  ASSUME((int)in_e.sid.code >= 0 && (int)in_e.sid.code < CODE_COUNT);
}
void h_status(void) {
  eph_in();
  ENSURE("healthy exactly when accuracy and health word allow it", ephemeris_healthy(&in_e, in_e.sid.code) == spec_healthy(&in_e, in_e.sid.code));
  ENSURE("status, first failing condition in order", get_ephemeris_status_t(&in_e) == spec_status(&in_e));
  ENSURE("no record, no validity", get_ephemeris_status_t(NULL) == EPH_NULL);
  REACH();
}
void h_healthy(void) { /* the code of the signal may differ from that of the record */
  eph_in();
  HAVOC(in_code);
  VP_RANGE(in_code, 0, CODE_COUNT - 1);
  ENSURE("healthy exactly when accuracy and health word allow it", ephemeris_healthy(&in_e, (code_t)in_code) == spec_healthy(&in_e, (code_t)in_code));
  REACH();
}
/* ---- validity interval: times on quarter seconds ------------------------------ */
#define BW 2000
static bool usable(s64 toe, s64 toc, s64 t, s64 fit, constellation_t c) {
  if (c == CONSTELLATION_SBAS) return true;
  s64 lo = toe, hi = toe + fit;
  if (c == CONSTELLATION_GPS || c == CONSTELLATION_QZS || c == CONSTELLATION_GLO) lo = toe - fit / 2, hi = toe + fit / 2;
  return lo <= t && t <= hi && (c == CONSTELLATION_GLO || (lo <= toc && toc <= hi));
}
/* ---- every record, every time: over the contracts of the callees ----------------
 * normalize_gps_time (C15) and gpstime_in_range (C17) are taken as functions of
 * their arguments and nothing else; ephemeris.c itself runs unchanged. */
#if defined(VP_CBMC) && defined(VP_ABS)
double __CPROVER_uninterpreted_ntow(double, s16);
s16 __CPROVER_uninterpreted_nwn(double, s16);
_Bool __CPROVER_uninterpreted_range(double, s16, double, s16, double, s16);
void normalize_gps_time(gps_time_t *t) {
  gps_time_t o = *t;
  t->tow = __CPROVER_uninterpreted_ntow(o.tow, o.wn);
  t->wn = __CPROVER_uninterpreted_nwn(o.tow, o.wn);
}
bool gpstime_in_range(const gps_time_t *b, const gps_time_t *e, const gps_time_t *t) {
  return __CPROVER_uninterpreted_range(b->tow, b->wn, e->tow, e->wn, t->tow, t->wn);
}
int sid_to_string(char *s, int n, const gnss_signal_t sid) {
  (void)s, (void)n, (void)sid;
  return 0;
}
#endif
static bool window(const ephemeris_t *e, const gps_time_t *t) {
  gps_time_t lo = e->toe, hi = e->toe;
  constellation_t c = con(e);
  if (c == CONSTELLATION_SBAS) return true;
  if (c == CONSTELLATION_GPS || c == CONSTELLATION_QZS || c == CONSTELLATION_GLO) {
    u32 half = e->fit_interval / 2;
    lo.tow -= half;
    hi.tow += half;
  } else {
    hi.tow += e->fit_interval;
  }
  normalize_gps_time(&lo);
  normalize_gps_time(&hi);
  const gps_time_t *toc = &e->data.kepler.toc;
  return gpstime_in_range(&lo, &hi, t) && (c == CONSTELLATION_GLO || (toc->wn != 0 && gpstime_in_range(&lo, &hi, toc)));
}
void h_usable(void) {
  eph_in();
  HAVOC(in_t);
#ifndef VP_CBMC
  if (vp_random_mode()) {
    in_e.toe.tow = vp_rand() % WEEK;
    in_e.data.kepler.toc = in_e.toe;
    if (vp_rand() % 4 == 0) in_e.data.kepler.toc.wn = 0;
    if (con(&in_e) == CONSTELLATION_GLO) in_e.data.glo.iod = vp_rand() % 256;
    in_t.wn = 2000;
    in_t.tow = vp_rand() % 3 ? in_e.toe.tow + vp_rand() % 16000 - 8000.0 : vp_rand() % WEEK;
    if (in_t.tow < 0 || in_t.tow >= WEEK) in_t.tow = 5;
  }
  const gps_time_t *toc = &in_e.data.kepler.toc; /* callees' preconditions */
  ASSUME(in_e.fit_interval <= 98 * 3600);
  ASSUME(con(&in_e) == CONSTELLATION_GLO || con(&in_e) == CONSTELLATION_SBAS || (toc->wn >= 0 && toc->tow >= 0 && toc->tow < WEEK));
#endif
  ASSUME(in_e.toe.wn >= 0 && in_e.toe.tow >= 0 && in_e.toe.tow < WEEK && in_t.wn >= 0 && in_t.tow >= 0 && in_t.tow < WEEK);
#ifdef VP_CBMC
  /* follows from the ranges; spelt out for the back end that abstracts arithmetic */
  ASSUME((int)in_e.toe.tow != TOW_UNKNOWN && (int)in_t.tow != TOW_UNKNOWN);
  ephemeris_status_t s = get_ephemeris_status_t(&in_e); /* = spec_status: goal "status" */
#else
  ephemeris_status_t s = spec_status(&in_e);
#endif
  bool w = s == EPH_VALID && window(&in_e, &in_t);
#ifndef VP_DETAIL
  ENSURE("usable exactly with a good status and within the validity interval", (ephemeris_valid(&in_e, &in_t) != 0) == w);
  ENSURE("no time, no validity", ephemeris_valid(&in_e, NULL) == 0);
#else
  ENSURE("the detailed status is the first failing condition", ephemeris_valid_detailed(&in_e, &in_t) == (s != EPH_VALID ? s : w ? EPH_VALID : EPH_TOO_OLD));
#endif
  REACH();
}
/* the same, edges of the interval, every constellation, concrete times */
#ifndef VP_H0
#define VP_H0 0
#endif
void h_edges(void) {
  static const u32 H[4] = {4, 2, 26, 98}, TOE[4] = {0, 7200, 302400, 604784};
  static const code_t C[6] = {CODE_GPS_L1CA, CODE_QZS_L1CA, CODE_GLO_L1OF, CODE_GAL_E1B, CODE_BDS2_B1, CODE_SBAS_L1CA};
  for (int j = 0; j < 4; j++)
    for (int k = 0; k < 6; k++)
      for (int i = 0; i < 6; i++)
        for (int u = 0; u < 2; u++) {
          ephemeris_t e = {0};
          e.sid.code = C[k];
          e.valid = true;
          e.ura = 2.0f;
          e.source = EPH_SOURCE_BDS_D1_D2_NAV;
          e.fit_interval = H[VP_H0] * 3600;
          e.toe.wn = BW;
          e.toe.tow = TOE[j];
          constellation_t c = con(&e);
          if (c == CONSTELLATION_GLO) {
            e.data.glo.iod = 17;
          } else if (c != CONSTELLATION_SBAS) {
            e.data.kepler.iodc = e.data.kepler.iode = 17;
            e.data.kepler.toc = e.toe;
          }
          s64 toe = TOE[j] * 4, fit = e.fit_interval * 4, mid = c == CONSTELLATION_GAL || c == CONSTELLATION_BDS ? fit / 2 : 0;
          s64 t = toe + mid + (i < 3 ? -fit / 2 : fit / 2) + i % 3 - 1;
          s64 wk = BW, q = t;
          if (q < 0) q += 4 * WEEK, wk--;
          if (q >= 4 * WEEK) q -= 4 * WEEK, wk++;
          if (u && (t - toe > 2 * WEEK || t - toe < -2 * WEEK)) continue; /* unknown week: nearest */
          gps_time_t tt = {.tow = q * 0.25, .wn = u ? WN_UNKNOWN : (s16)wk};
          ENSURE("edges of the validity interval", (ephemeris_valid(&e, &tt) != 0) == usable(toe, toe, t, fit, c));
        }
  REACH();
}
