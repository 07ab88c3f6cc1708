/* shared by the time harnesses: calendar, leap seconds, libm stand-in */
#ifndef TIME_SPEC_H
#define TIME_SPEC_H
#include <math.h>
#include <swiftnav/gnss_time.h>
#define W 604800.0
#ifdef VP_CBMC
/* round and floor of the C library, for arguments below 2^63 in size: exact */
double round(double x) {
  double t = (double)(long long)x, d = x - t;
  return d >= 0.5 ? t + 1 : d <= -0.5 ? t - 1 : t;
}
double floor(double x) {
  double t = (double)(long long)x;
  return t > x ? t - 1 : t;
}
/* fmod of the C library is exact (ISO C 7.12.10.1); cbmc's own model is not. */
double fmod(double x, double y) {
  if (x < 0) return -fmod(-x, y);
  if (y == 1.0) return x - floor(x);
  if (y == 86400.0 && x < W + 86400.0) {
    double k = 0;
    for (int i = 1; i < 8; i++)
      if (x >= i * 86400.0) k = i * 86400.0;
    return x - k; /* exact: the remainder is a multiple of ulp(x) */
  }
  double any;
  return any;
}
#endif
static bool leap(u32 y) { return (y % 4 == 0 && y % 100 != 0) || y % 400 == 0; }
/* days of the proleptic Gregorian calendar before 1 Jan of year y, from year 0 */
static u32 days_to(u32 y) { return 365 * y + (y + 3) / 4 - (y + 99) / 100 + (y + 399) / 400; }
static const u16 CUM[13] = {0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334, 365};
static u32 cum(u32 y, u32 m) { /* days before month m + 1 (m = 0..12) */
  return CUM[m] + (m >= 2 && leap(y) ? 1 : 0);
}
#define GPS_DAY0 (days_to(1980) + 5) /* 6 Jan 1980 */
/* UTC midnights after the leap seconds since 1980: year, month */
static const u16 LEAPS[18][2] = {{1981, 7}, {1982, 7}, {1983, 7}, {1985, 7}, {1988, 1}, {1990, 1},
                                 {1991, 1}, {1992, 7}, {1993, 7}, {1994, 7}, {1996, 1}, {1997, 7},
                                 {1999, 1}, {2006, 1}, {2009, 1}, {2012, 7}, {2015, 7}, {2017, 1}};
static u32 leap_day(int i) { return days_to(LEAPS[i][0]) + cum(LEAPS[i][0], LEAPS[i][1] - 1u) - GPS_DAY0; }
/* t (in seconds, exact enough) at or after `secs` past day `d`? compared by parts */
static bool at_or_after(gps_time_t t, u32 d, double secs) {
  /* whole days and remainder of the threshold, as week and time of week */
  s32 wk = (s32)(d / 7);
  double tow = (d % 7) * 86400.0 + secs;
  if (t.wn != wk) {
    if (tow < 0) return t.wn > wk || (t.wn == wk - 1 && t.tow >= tow + W);
    return t.wn > wk;
  }
  return t.tow >= tow;
}
/* GPS - UTC at GPS time t: leap second i (0-based) starts i seconds after its UTC
 * midnight in GPS time and takes effect one second later */
static int spec_offset(gps_time_t t) {
  int n = 0;
  for (int i = 0; i < 18; i++)
    if (at_or_after(t, leap_day(i), i + 1)) n = i + 1;
  return n;
}
static bool spec_event(gps_time_t t) {
  bool e = false;
  for (int i = 0; i < 18; i++)
    if (at_or_after(t, leap_day(i), i) && !at_or_after(t, leap_day(i), i + 1)) e = true;
  return e;
}
/* the same for a UTC time stamp */
static int spec_offset_utc(gps_time_t u) {
  int n = 0;
  for (int i = 0; i < 18; i++)
    if (at_or_after(u, leap_day(i), 0)) n = i + 1;
  return n;
}
static bool near(double a, double b, double tol) { return a == b || (a - b <= tol && b - a <= tol); }
#endif
