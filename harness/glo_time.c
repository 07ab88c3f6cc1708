/* C20 GLONASS time, dates and epochs. */
#include "time_in.h"
IN(u8, in_n4);
IN(u16, in_nt);
IN(u8, in_h);
IN(u8, in_m);
IN(double, in_s);
IN(s32, in_y);
IN(u8, in_mo);
IN(u8, in_d);
/* days from GPS day 0 to day nt of four-year cycle n4 (1 Jan 1996 is day 1 of cycle 1) */
static s32 glo_day(u32 n4, u32 nt) { return (s32)(days_to(1996 + 4 * (n4 - 1)) + nt - 1 - GPS_DAY0); }
void h_invalid(void) { /* impossible dates */
  HAVOC(in_n4);
  HAVOC(in_nt);
  HAVOC(in_h);
  HAVOC(in_m);
  HAVOC(in_s);
  ASSUME(in_n4 < 1 || in_n4 > 31 || in_nt < 1 || in_nt > 1461);
  glo_time_t g = {.n4 = in_n4, .nt = in_nt, .h = in_h, .m = in_m, .s = in_s};
  gps_time_t t = glo2gps(&g, NULL);
  ENSURE("no GPS time for a day outside the calendar", t.wn == -1 && t.tow == -1);
  REACH();
}
#ifdef VP_N4
void h_glo2gps(void) {
  HAVOC(in_m);
  HAVOC(in_s);
  VP_RANGE(in_m, 0, 59);
#ifdef VP_S
  in_s = VP_S;
#else
  VP_HINT(in_s = (double)(vp_rand() % 60) + 0.25 * (vp_rand() % 4));
  ASSUME(in_s >= 0 && in_s < 60);
#endif
  glo_time_t g = {.n4 = VP_N4, .nt = VP_NT, .h = VP_HR, .m = in_m, .s = in_s};
  gps_time_t t = glo2gps(&g, NULL);
  s32 day = glo_day(VP_N4, VP_NT);
  s32 h = VP_HR - 3;
  if (h < 0) {
    h += 24;
    day--;
  }
  gps_time_t u = {.wn = (s16)(day / 7), .tow = (day % 7) * 86400 + h * 3600 + in_m * 60 + in_s};
  s32 off = spec_offset_utc(u);
  double e = u.tow + off;
  bool over = e >= W;
  ENSURE("the same instant in GPS time", t.wn == u.wn + (over ? 1 : 0) && near(t.tow, over ? e - W : e, 1e-9));
  REACH();
}
#endif
#ifdef VP_WN
static const double TOWS[] = {0, 17.5, 18, 10817.75, 10818, 97200.5, 300000.125, 604799.5};
void h_round_trip(void) {
  for (int i = 0; i < 8; i++) {
    gps_time_t t = {.wn = VP_WN, .tow = TOWS[i]};
    glo_time_t g = gps2glo(&t, NULL);
    ENSURE("GLONASS fields in range", g.n4 >= 1 && g.nt >= 1 && g.nt <= 1461 && g.h < 24 && g.m < 60 && g.s >= 0 && g.s < 61);
    double off = spec_offset(t);
    double sod = g.h * 3600 + g.m * 60 + g.s;
    ENSURE("three hours ahead of UTC", near((glo_day(g.n4, g.nt) - VP_WN * 7) * 86400.0 + sod, t.tow - off + 10800, 1e-6));
    gps_time_t b = glo2gps(&g, NULL);
    ENSURE("there and back", b.wn == t.wn && near(b.tow, t.tow, 1e-6));
  }
  REACH();
}
#endif
#ifdef VP_L0
void h_glo_leap(void) { /* the inserted second, 02:59:60 in Moscow */
  static const double AT[] = {-1, 0, 0.25, 0.999, 1, 1.5};
  for (int l = VP_L0; l < VP_L0 + 4 && l < 18; l++)
    for (int i = 0; i < 6; i++) {
      gps_time_t t = {.wn = (s16)(leap_day(l) / 7), .tow = (leap_day(l) % 7) * 86400.0 + l + AT[i]};
      glo_time_t g = gps2glo(&t, NULL);
      bool in = AT[i] >= 0 && AT[i] < 1;
      ENSURE("the inserted second is 02:59:60", in == (g.s >= 60) && (!in || (g.h == 2 && g.m == 59 && near(g.s, 60 + AT[i], 1e-9))));
      gps_time_t b = glo2gps(&g, NULL);
      ENSURE("there and back over the leap second", b.wn == t.wn && near(b.tow, t.tow, 1e-6));
    }
  REACH();
}
#endif
#define MJD0 ((s32)(days_to(1858) + cum(1858, 10) + 16)) /* 17 Nov 1858 */
static void date(void) {
  HAVOC(in_y);
  HAVOC(in_mo);
  HAVOC(in_d);
  VP_RANGE(in_y, 1900, 2299);
  VP_RANGE(in_mo, 1, 12);
  VP_RANGE(in_d, 1, 31);
  ASSUME(in_d <= cum((u32)in_y, in_mo) - cum((u32)in_y, in_mo - 1u));
}
void h_date2mjd(void) {
  date();
  s32 n = (s32)(days_to((u32)in_y) + cum((u32)in_y, in_mo - 1u)) + in_d - 1 - MJD0;
  ENSURE("modified Julian date of a day", date2mjd(in_y, in_mo, in_d, 0, 0, 0) == n);
  REACH();
}
void h_mjd2date(void) {
  date();
  s32 n = (s32)(days_to((u32)in_y) + cum((u32)in_y, in_mo - 1u)) + in_d - 1 - MJD0;
  s32 y, mo, d, h, mi;
  double s;
  mjd2date(n, &y, &mo, &d, &h, &mi, &s);
  ENSURE("date of a modified Julian day", y == in_y && mo == in_mo && d == in_d && h == 0 && mi == 0 && s == 0);
  REACH();
}
#ifdef VP_F
/* concrete times of day, see goals.py */
static const s32 CLOCK[][3] = {{0, 0, 0}, {0, 0, 1}, {5, 43, 21}, {12, 0, 0}, {18, 30, 59}, {23, 59, 59}};
static const s32 DATES[][3] = {{1980, 1, 6}, {1999, 12, 31}, {2000, 2, 29}, {2016, 12, 31}, {2017, 1, 1}, {2100, 3, 1}, {2023, 7, 14}};
static bool instant(gps_time_t t, s32 day, double sod, double tol) {
  return near((t.wn - day / 7) * W + t.tow, (day % 7) * 86400 + sod, tol);
}
void h_dates(void) {
  for (int i = 0; i < 7; i++) {
    s32 y, mo, d, h, mi;
    double s;
    double sod = CLOCK[VP_F][0] * 3600 + CLOCK[VP_F][1] * 60 + CLOCK[VP_F][2];
    s32 day = (s32)(days_to((u32)DATES[i][0]) + cum((u32)DATES[i][0], (u32)DATES[i][1] - 1u)) + DATES[i][2] - 1 - (s32)GPS_DAY0;
    double mjd = date2mjd(DATES[i][0], DATES[i][1], DATES[i][2], CLOCK[VP_F][0], CLOCK[VP_F][1], CLOCK[VP_F][2]);
    ENSURE("date and clock to modified Julian date", near(mjd, 44244 + day + sod / 86400, 1e-10));
    mjd2date(mjd, &y, &mo, &d, &h, &mi, &s);
    ENSURE("and back", y == DATES[i][0] && mo == DATES[i][1] && d == DATES[i][2] && near(h * 3600 + mi * 60 + s, sod, 1e-5));
    utc_tm u = date2utc(DATES[i][0], DATES[i][1], DATES[i][2], CLOCK[VP_F][0], CLOCK[VP_F][1], CLOCK[VP_F][2]);
    ENSURE("to broken-down time", near(((s32)(days_to(u.year) + cum(u.year, u.month - 1u) + u.month_day - 1u - GPS_DAY0) - day) * 86400.0 +
                                           u.hour * 3600 + u.minute * 60 + u.second_int + u.second_frac, sod, 1e-5));
    gps_time_t g = mjd2gps(mjd), q, du = {.wn = (s16)(day / 7), .tow = (day % 7) * 86400 + sod};
    double off = spec_offset_utc(du);
    ENSURE("to GPS time, leap seconds added", instant(g, day, sod + off, 1e-5) && valid(&g));
    q = date2gps(DATES[i][0], DATES[i][1], DATES[i][2], CLOCK[VP_F][0], CLOCK[VP_F][1], CLOCK[VP_F][2]);
    ENSURE("date to GPS time", instant(q, day, sod + off, 1e-5));
    utc_tm v = {.year = (u16)DATES[i][0], .month = (u8)DATES[i][1], .month_day = (u8)DATES[i][2], .hour = (u8)CLOCK[VP_F][0], .minute = (u8)CLOCK[VP_F][1], .second_int = (u8)CLOCK[VP_F][2]};
    utc2gps(&v, &q, NULL);
    ENSURE("broken-down time to GPS time", instant(q, day, sod + off, 1e-5));
    ENSURE("GPS time to modified Julian date", near(gps2mjd(&q), mjd, 1e-10));
  }
  REACH();
}
#endif
#ifdef VP_HZ
void h_epoch(void) {
  VALID_TIME(in_t);
#ifdef VP_LO
  ASSUME(in_t.tow >= VP_LO && in_t.tow < VP_LO + 4);
#endif
  in_t.wn = 2000;
  double steps = in_t.tow * VP_HZ;
  gps_time_t r = round_to_epoch(&in_t, VP_HZ), f = floor_to_epoch(&in_t, VP_HZ);
  double rs = (r.tow + (r.wn - 2000) * W) * VP_HZ, fs = (f.tow + (f.wn - 2000) * W) * VP_HZ;
  ENSURE("epochs are valid times", valid(&r) && valid(&f));
  ENSURE("a whole number of epochs", near(rs, floor(rs + 0.5), 1e-6) && near(fs, floor(fs + 0.5), 1e-6));
  ENSURE("the nearest epoch", near(rs, steps, 0.5 + 1e-6));
  ENSURE("the last epoch", fs <= steps + 1e-6 && steps - fs < 1 + 1e-6);
  REACH();
}
#endif
