/* C19 leap seconds and UTC. */
#include "time_in.h"
IN(double, in_s);
static utc_tm utc;
#ifndef VP_D
#define VP_D 0
#endif
static void day_of(void) { /* any valid time on day VP_D of its week */
  VALID_TIME(in_t);
  VP_HINT(in_t.tow = VP_D * 86400.0 + (double)(vp_rand() % 86400) + (vp_rand() % 3 ? 0 : (vp_rand() % 1000) / 1000.0););
#ifdef VP_TOD
  in_t.tow = VP_D * 86400.0 + VP_TOD;
#else
  ASSUME(in_t.tow >= VP_D * 86400.0 && in_t.tow < (VP_D + 1) * 86400.0);
#endif
}
/* ---- C19 --------------------------------------------------------------------- */
#ifdef VP_L
#define LEAP_WK ((s16)(leap_day(VP_L) / 7))
#define LEAP_TOW ((leap_day(VP_L) % 7) * 86400.0)
#endif
static void leap_time(void) { /* any time of week in the week (+VP_DW) of leap second VP_L, or any week at VP_TOD */
  VALID_TIME(in_t);
#ifdef VP_L
  in_t.wn = LEAP_WK + VP_DW;
#elif defined VP_TOD
  in_t.tow = VP_TOD;
#endif
}
void h_offset(void) {
  leap_time();
  ENSURE("GPS-UTC offset: leap seconds up to the given GPS time", get_gps_utc_offset(&in_t, NULL) == spec_offset(in_t));
  ENSURE("during a leap second exactly in the second it is inserted", is_leap_second_event(&in_t, NULL) == spec_event(in_t));
  REACH();
}
void h_offset_utc(void) {
  leap_time();
  ENSURE("UTC-GPS offset: leap seconds up to the given UTC time", get_utc_gps_offset(&in_t, NULL) == -spec_offset_utc(in_t));
  REACH();
}
/* points of the seconds around a leap second, relative to its start */
static const double POINTS[] = {-2, -1, -1e-9, 0, 0.25, 0.999, 1 - 2e-10, 1 - 4e-15, 1, 1.5, 17};
static bool point(int l, int i, gps_time_t *t) { /* false: rounds to another point */
  double at = (leap_day(l) % 7) * 86400.0 + l;
  t->wn = (s16)(leap_day(l) / 7);
  t->tow = at + POINTS[i];
  if (t->tow < 0) {
    t->tow += W;
    t->wn--;
    return t->tow < W;
  }
  return (POINTS[i] < 1) == (t->tow < at + 1) && (POINTS[i] < 0) == (t->tow < at);
}
#ifdef VP_L0
void h_edges(void) {
  gps_time_t t;
  for (int l = VP_L0; l < VP_L0 + 3; l++)
    for (int i = 0; i < 11; i++) {
      if (!point(l, i, &t)) continue;
      ENSURE("GPS-UTC offset: leap seconds up to the given GPS time", get_gps_utc_offset(&t, NULL) == l + (POINTS[i] >= 1 ? 1 : 0));
      ENSURE("during a leap second exactly in the second it is inserted", is_leap_second_event(&t, NULL) == (POINTS[i] >= 0 && POINTS[i] < 1));
      t.tow -= l; /* as UTC without the inserted second */
      if (t.tow < 0) continue;
      ENSURE("UTC-GPS offset: leap seconds up to the given UTC time", get_utc_gps_offset(&t, NULL) == -(l + (POINTS[i] >= 0 ? 1 : 0)));
    }
  REACH();
}
void h_inserted(void) { /* 23:59:60 */
  gps_time_t t;
  for (int l = VP_L0; l < VP_L0 + 3; l++)
    for (int i = 3; i < 8; i++) {
      if (!point(l, i, &t)) continue;
      gps2utc(&t, &utc, NULL);
      ENSURE("an inserted second is 23:59:60", utc.hour == 23 && utc.minute == 59 && utc.second_int == 60);
      ENSURE("fraction of the inserted second", utc.second_frac >= 0 && utc.second_frac < 1 && near(utc.second_frac, POINTS[i], 1e-9));
      u32 d = leap_day(l) - 1;
      ENSURE("last day before the leap", days_to(utc.year) + cum(utc.year, utc.month - 1u) + utc.month_day - 1u == GPS_DAY0 + d &&
                                             utc.year_day == cum(utc.year, utc.month - 1u) + utc.month_day && utc.week_day == (d + 6) % 7 + 1);
      s32 y, mo, da, h, mi;
      double se;
      gps2date(&t, &y, &mo, &da, &h, &mi, &se);
      ENSURE("the same date and time in parts", y == utc.year && mo == utc.month && da == utc.month_day && h == 23 && mi == 59 && se == 60 + utc.second_frac);
      ENSURE("day of the year counted from zero", gps2doy(&t) == utc.year_day - 1);
    }
  REACH();
}
#endif
void h_gps2time(void) {
  leap_time();
  gps_time_t t = in_t;
  long long s = 315964800ll + in_t.wn * 604800ll + (long long)in_t.tow - spec_offset(in_t);
  ENSURE("Unix time of a GPS time", gps2time(&t) == s);
  REACH();
}
void h_gps2utc(void) { /* outside leap seconds, whole week 2200: offset 18 */
  day_of();
  in_t.wn = 2200;
  gps_time_t t = in_t;
  gps2utc(&t, &utc, NULL);
  s32 day = (s32)(days_to(utc.year) + cum(utc.year, utc.month - 1u) + utc.month_day - 1u - GPS_DAY0) - 2200 * 7;
  ENSURE("time of day in range", utc.hour < 24 && utc.minute < 60 && utc.second_int < 60 && utc.second_frac >= 0 && utc.second_frac < 1);
  ENSURE("the day or the one before", day == VP_D || day == VP_D - 1);
  double rel = in_t.tow - (18 + VP_D * 86400.0) + (day == VP_D ? 0 : 86400.0);
  s32 sod = utc.hour * 3600 + utc.minute * 60 + utc.second_int;
  ENSURE("18 seconds behind GPS time", near(sod + utc.second_frac, rel, 1e-6));
  REACH();
}
#ifdef VP_A0
static utc_params_t params(void) { /* leap second at the end of week 1929 */
  utc_params_t p = {.a0 = VP_A0, .a1 = VP_A1, .a2 = VP_A2, .tot = {.wn = 1929, .tow = 147456}, .dt_ls = 17, .dt_lsf = 18};
  p.t_lse.wn = 1930;
  p.t_lse.tow = 17 + VP_A0 + VP_A1 * (457344 + 17) + VP_A2 * (457344.0 + 17) * (457344.0 + 17);
  return p;
}
#endif
#ifdef VP_WN
void h_params_switch(void) { /* a1 = a2 = 0 */
  VALID_TIME(in_t);
  VP_HINT(in_t.wn = 1928 + vp_rand() % 4; if (vp_rand() % 3 == 0) in_t.tow = 17 + (vp_rand() % 5000) / 1e3;);
  in_t.wn = VP_WN;
  utc_params_t p = params();
  bool started = in_t.wn > 1930 || (in_t.wn == 1930 && in_t.tow - p.t_lse.tow >= 0);
  bool over = in_t.wn > 1930 || (in_t.wn == 1930 && in_t.tow - p.t_lse.tow >= 1);
  ENSURE("broadcast offset: the new leap second count one second after the event starts",
         get_gps_utc_offset(&in_t, &p) == VP_A0 + (over ? 18.0 : 17.0));
  ENSURE("leap second event: one second from the broadcast time", is_leap_second_event(&in_t, &p) == (started && !over));
  utc_params_t n = p;
  n.t_lse.wn = 0;
  ENSURE("parameters without a leap second time are not used", get_gps_utc_offset(&in_t, &n) == get_gps_utc_offset(&in_t, NULL));
  REACH();
}
#endif
#ifdef VP_I0
void h_params(void) { /* concrete times: polynomial, inserted second, there and back */
  static const double AT[] = {-400000, -86400, -1, -1e-9, 0, 0.5, 1 - 1e-12, 1, 2, 86400, 400000};
  utc_params_t p = params();
  for (int i = VP_I0; i < VP_I0 + 4 && i < 11; i++) {
    gps_time_t t = p.t_lse;
    t.tow += AT[i];
    if (t.tow < 0) {
      t.tow += W;
      t.wn--;
    }
    double dt = t.tow - 147456 + (t.wn - 1929) * W;
    double poly = VP_A0 + VP_A1 * dt + VP_A2 * dt * dt;
    double off = get_gps_utc_offset(&t, &p);
    ENSURE("offset: polynomial plus leap seconds", near(off, poly + (AT[i] >= 1 ? 18 : 17), 1e-9));
    gps2utc(&t, &utc, &p);
    s32 day = (s32)(days_to(utc.year) + cum(utc.year, utc.month - 1u) + utc.month_day - 1u - GPS_DAY0) - 1930 * 7;
    bool lse = AT[i] >= 0 && AT[i] < 1;
    ENSURE("23:59:60 exactly during the inserted second", lse == (utc.second_int == 60) && (!lse || (utc.hour == 23 && utc.minute == 59 && day == -1)));
    s32 sod = utc.hour * 3600 + utc.minute * 60 + utc.second_int;
    ENSURE("UTC runs behind GPS by the offset", near(day * 86400.0 + sod + utc.second_frac + off,
                                                     t.tow + (t.wn - 1930) * W, 1e-6));
    gps_time_t u = {.wn = 1930, .tow = day * 86400.0 + sod + utc.second_frac};
    if (!lse && (AT[i] < -1e-6 || AT[i] > 1)) ENSURE("back from UTC", near(get_utc_gps_offset(&u, &p), -off, 1e-9));
  }
  REACH();
}
#endif
