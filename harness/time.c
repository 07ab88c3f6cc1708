/* C15 normalisation and validity, C16 week numbers, C17 differences, C18 calendar. */
#include "time_in.h"
IN(gps_time_t, in_r);
IN(gps_time_t, in_u);
IN(gps_time_duration_t, in_d);
IN(double, in_s);
IN(u16, in_a);
IN(u16, in_b);
IN(time_t, in_x);
IN(u8, in_k);
#ifndef WEEKS
#define WEEKS 2
#endif
/* ---- C15 --------------------------------------------------------------------- */
/* x + k weeks, k small: no multiplication for the solver */
static double weeks(double x, s32 k) {
  return k == 0 ? x : k == 1 ? x + W : k == -1 ? x - W : k == 2 ? x + 2 * W : k == -2 ? x - 2 * W :
         k == 3 ? x + 3 * W : k == -3 ? x - 3 * W : k == 4 ? x + 4 * W : x - 4 * W;
}
static bool moved(gps_time_t n, gps_time_t o) { /* same instant, normalised */
  s32 k = o.wn - n.wn;
  return n.tow >= 0 && n.tow < W && k >= -WEEKS && k <= WEEKS && near(n.tow, weeks(o.tow, k), 1e-9);
}
void h_valid(void) {
  HAVOC(in_t);
  SHAPE(in_t);
  HAVOC(in_a);
  bool v = in_t.tow == in_t.tow && valid(&in_t);
  ENSURE("valid: 0 <= tow < one week, week known", gps_time_valid(&in_t) == v);
  ENSURE("current: within 1023 weeks of the reference",
         gps_current_time_valid_with_wn_ref(&in_t, in_a) == (v && in_t.wn >= in_a && in_t.wn < in_a + 1023));
  ENSURE("current: default reference week 1876",
         gps_current_time_valid(&in_t) == (v && in_t.wn >= 1876 && in_t.wn < 1876 + 1023));
  REACH();
}
void h_unsafe(void) {
  TIME(in_t);
  ASSUME(in_t.tow > -WEEKS * W && in_t.tow < WEEKS * W);
  ASSUME(in_t.wn > -32000 && in_t.wn < 32000);
  gps_time_t u = in_t;
  unsafe_normalize_gps_time(&u);
  ENSURE("same instant with 0 <= tow < one week", moved(u, in_t));
  REACH();
}
void h_normalize(void) {
  TIME(in_t);
  ASSUME(in_t.tow > -WEEKS * W && in_t.tow < WEEKS * W);
  ASSUME(in_t.wn < 32000);
  gps_time_t t = in_t, o = in_t;
  bool r = normalize_gps_time_safe(&t);
  if (in_t.wn < -1) {
    ENSURE("a week before 'unknown' is refused and left alone", !r && t.wn == in_t.wn && t.tow == in_t.tow);
  } else if (in_t.wn == -1) {
    ENSURE("unknown week: stays unknown, tow wraps", r && t.wn == -1 && t.tow >= 0 && t.tow < W);
    ENSURE("unknown week: by whole weeks", near(t.tow, in_t.tow, 1e-9) || near(t.tow, in_t.tow - W, 1e-9) ||
                                               near(t.tow, in_t.tow + W, 1e-9) || near(t.tow, in_t.tow + 2 * W, 1e-9));
  } else {
    ENSURE("same instant with 0 <= tow < one week", moved(t, o));
    ENSURE("true exactly when the result is a valid time", r == (t.wn >= 0));
    ENSURE("an already normal time is untouched",
           !(in_t.tow >= 0 && in_t.tow < W) || (t.tow == in_t.tow && t.wn == in_t.wn));
  }
  REACH();
}
void h_assert_variant(void) {
  TIME(in_t);
  ASSUME(in_t.tow > -WEEKS * W && in_t.tow < WEEKS * W);
  ASSUME(in_t.wn >= -1 && in_t.wn < 32000);
  gps_time_t t = in_t, a = in_t;
  if (normalize_gps_time_safe(&t)) {
    normalize_gps_time(&a);
    ENSURE("the asserting variant agrees", a.wn == t.wn && a.tow == t.tow);
  }
  REACH();
}
void h_duration(void) {
  HAVOC(in_d);
  VP_HINT(in_d.weeks %= 100; in_d.seconds = (double)(s64)(vp_rand() % 4000000) - 2000000; if (vp_rand() % 4 == 0) in_d.seconds = W * (double)(s64)(vp_rand() % 5) - 2 * W;);
  ASSUME(in_d.seconds > -WEEKS * W && in_d.seconds < WEEKS * W);
  ASSUME(in_d.weeks > -32000 && in_d.weeks < 32000);
  gps_time_duration_t d = in_d;
  normalize_gps_time_duration(&d);
  ENSURE("less than a week of seconds", d.seconds > -W && d.seconds < W);
  ENSURE("same duration", near(d.seconds, weeks(in_d.seconds, in_d.weeks - d.weeks), 1e-9));
  ENSURE("weeks and seconds never have opposite signs",
         !(d.weeks > 0 && d.seconds < 0) && !(d.weeks < 0 && d.seconds > 0));
  REACH();
}
void h_add(void) {
  VALID_TIME(in_t);
  HAVOC(in_s);
  VP_HINT(in_s = (double)(s64)(vp_rand() % 4000000) - 2000000; if (vp_rand() % 4 == 0) in_s = -in_t.tow);
  ASSUME(in_s > -WEEKS * W && in_s < WEEKS * W);
  ASSUME(in_t.wn < 32000);
  gps_time_t t = in_t;
  add_secs(&t, in_s);
  gps_time_t sum = {.wn = in_t.wn, .tow = in_t.tow + in_s};
  ENSURE("the instant moves by exactly that many seconds", moved(t, sum));
  REACH();
}

/* ---- C16 --------------------------------------------------------------------- */
void h_cycle(void) {
  HAVOC(in_a);
  HAVOC(in_b);
  VP_HINT(if (vp_rand() % 2) { in_a %= 1024; in_b %= 4096; });
  ASSUME(in_b <= 64512);
  u16 r = gps_adjust_week_cycle(in_a, in_b), q = gps_adjust_week_cycle256(in_a, in_b);
  ENSURE("congruent modulo 1024, not before the reference", r % 1024 == in_a % 1024 && r >= in_b);
  ENSURE("the first such week (or the given one, if later)", in_a >= in_b ? r == in_a : r < in_b + 1024);
  ENSURE("congruent modulo 256, not before the reference", q % 256 == in_a % 256 && q >= in_b);
  ENSURE("the first such week modulo 256 (or the given one, if later)", in_a >= in_b ? q == in_a : q < in_b + 256);
  REACH();
}
void h_match(void) {
  TIME(in_t);
  TIME(in_r);
  ASSUME(in_t.tow >= 0 && in_t.tow < W && in_r.tow >= 0 && in_r.tow < W);
  ASSUME(in_r.wn >= -1 && in_r.wn < 32767);
  gps_time_t t = in_t, r = in_r, u = in_t;
  bool ok = gps_time_match_weeks_safe(&t, &r);
  ENSURE("the reference and the time of week are unchanged", r.wn == in_r.wn && r.tow == in_r.tow && t.tow == in_t.tow);
  if (in_r.wn == -1) {
    ENSURE("an unknown reference changes nothing", ok && t.wn == in_t.wn);
  } else {
    double dt = in_t.tow - in_r.tow;
    s32 w = in_r.wn + (dt > W / 2 ? -1 : dt < -W / 2 ? 1 : 0);
    ENSURE("the week nearest to the reference", t.wn == w);
    ENSURE("failure exactly when that is before week 0", ok == (w >= 0));
    double d = dt + ((double)t.wn - in_r.wn) * W;
    ENSURE("within half a week of the reference", d <= W / 2 && d >= -W / 2);
    if (ok) {
      gps_time_match_weeks(&u, &r);
      ENSURE("the asserting variant agrees", u.wn == t.wn && u.tow == t.tow);
    }
  }
  REACH();
}

/* ---- C17 --------------------------------------------------------------------- */
#ifdef VP_W1
#define VP_P1 VP_W1
#define VP_P2 VP_W2
#else
#define VP_P1 0
#define VP_P2 0
#endif
static void pair(void) { /* any two times of week, in weeks VP_W1 and VP_W2 */
  TIME(in_t);
  TIME(in_r);
  in_t.wn = VP_P1;
  in_r.wn = VP_P2;
  ASSUME(in_t.tow >= 0 && in_t.tow < W && in_r.tow >= 0 && in_r.tow < W);
}
void h_diff_rev(void) {
  static const double AT[] = {0, 1, 100000.25, 302399.75, 302400, 302400.5, 402400.25, 604799.75};
  for (int i = 0; i < 8; i++)
    for (int j = 0; j < 8; j++) {
      gps_time_t a = {.wn = VP_P1, .tow = AT[i]}, b = {.wn = VP_P2, .tow = AT[j]};
      ENSURE("reversing the times negates the difference", gpsdifftime(&b, &a) == -gpsdifftime(&a, &b));
    }
  REACH();
}
void h_diff(void) {
  pair();
  gps_time_t t = in_t, r = in_r;
  double d = gpsdifftime(&t, &r);
  double s = in_t.tow - in_r.tow;
#if VP_P1 < 0 || VP_P2 < 0
  ENSURE("unknown week: nearest, at most half a week", d <= W / 2 && d >= -W / 2);
  ENSURE("unknown week: equal modulo a week", near(d, s, 1e-9) || near(d, s + W, 1e-9) || near(d, s - W, 1e-9));
#else
  ENSURE("elapsed seconds between the two instants", near(d, s + (VP_P1 - VP_P2) * W, 1e-5));
#endif
  ENSURE("arguments unchanged", t.wn == in_t.wn && t.tow == in_t.tow && r.wn == in_r.wn && r.tow == in_r.tow);
  REACH();
}
void h_diff_week(void) { /* any weeks, one pair of times of week */
  VALID_TIME(in_t);
  VALID_TIME(in_r);
  gps_time_t t = {.wn = in_t.wn, .tow = 600000.25}, r = {.wn = in_r.wn, .tow = 1000};
  ENSURE("elapsed seconds between the two instants", gpsdifftime(&t, &r) == 599000.25 + ((double)in_t.wn - in_r.wn) * W);
  ENSURE("antisymmetric", gpsdifftime(&r, &t) == -599000.25 + ((double)in_r.wn - in_t.wn) * W);
  REACH();
}
void h_diff_ws(void) {
#ifdef VP_ANY
  TIME(in_t);
  TIME(in_r);
#else
  pair();
#endif
  HAVOC(in_d);
  gps_time_duration_t d = in_d;
  bool ok = gpsdifftime_week_second(&in_t, &in_r, &d);
  ENSURE("defined exactly for valid times", ok == (valid(&in_t) && valid(&in_r)));
  if (!ok) {
    ENSURE("undefined difference is zero", d.weeks == 0 && d.seconds == 0);
  } else {
    ENSURE("less than a week of seconds", d.seconds > -W && d.seconds < W);
    ENSURE("same sign", !(d.weeks > 0 && d.seconds < 0) && !(d.weeks < 0 && d.seconds > 0));
    s32 k = in_t.wn - in_r.wn - d.weeks;
    ENSURE("the elapsed time", k >= -1 && k <= 1 && near(d.seconds, weeks(in_t.tow - in_r.tow, k), 1e-9));
  }
  REACH();
}
IN(u32, in_q1);
IN(u32, in_q2);
IN(u32, in_q3);
void h_range(void) { /* times on quarters of a second: every difference is exact */
  TIME(in_t);
  TIME(in_r);
  TIME(in_u);
  HAVOC(in_q1);
  HAVOC(in_q2);
  HAVOC(in_q3);
  VP_RANGE(in_q1, 0, 604800 * 4 - 1);
  VP_RANGE(in_q2, 0, 604800 * 4 - 1);
  VP_RANGE(in_q3, 0, 604800 * 4 - 1);
  VP_HINT(in_t.wn &= 3; in_r.wn &= 3; in_u.wn &= 3; if (vp_rand() % 4 == 0) in_q2 = in_q1; if (vp_rand() % 4 == 0) in_q3 = in_q1;);
  ASSUME(in_t.wn >= 0 && in_r.wn >= 0 && in_u.wn >= 0);
#ifdef VP_W3
  ASSUME(in_t.wn == VP_W1 && in_r.wn == VP_W2 && in_u.wn == VP_W3);
#endif
#ifdef VP_Q2
  ASSUME(in_q2 == VP_Q2 && in_q3 == VP_Q3);
#endif
  in_t.tow = in_q1 * 0.25;
  in_r.tow = in_q2 * 0.25;
  in_u.tow = in_q3 * 0.25;
  bool after = in_t.wn > in_r.wn || (in_t.wn == in_r.wn && in_q1 >= in_q2);
  bool before = in_t.wn < in_u.wn || (in_t.wn == in_u.wn && in_q1 <= in_q3);
  ENSURE("in range exactly from the beginning to the end, both included",
         gpstime_in_range(&in_r, &in_u, &in_t) == (after && before));
  REACH();
}

/* ---- C18 --------------------------------------------------------------------- */
static void civil(const utc_tm *u, u32 day /* since GPS day 0 */) {
  u32 y = u->year;
  ENSURE("month and day exist", u->month >= 1 && u->month <= 12 && u->month_day >= 1 &&
                                    u->month_day <= cum(y, u->month) - cum(y, u->month - 1u));
  ENSURE("the date is that day of the Gregorian calendar",
         days_to(y) + cum(y, u->month - 1u) + u->month_day - 1u == GPS_DAY0 + day);
  ENSURE("day of the year", u->year_day == cum(y, u->month - 1u) + u->month_day);
  ENSURE("day of the week, Monday is 1, 6 Jan 1980 a Sunday", u->week_day == (day + 6) % 7 + 1);
}
static utc_tm utc;
#ifndef VP_D
#define VP_D 0
#endif
static void day_of(void) { /* any valid time on day VP_D of its week */
  VALID_TIME(in_t);
  VP_HINT(in_t.tow = VP_D * 86400.0 + (double)(vp_rand() % 86400) + (vp_rand() % 3 ? 0 : (vp_rand() % 1000) / 1000.0););
#ifdef VP_TOD
  in_t.tow = VP_D * 86400.0 + VP_TOD;
#else
  ASSUME(in_t.tow >= VP_D * 86400.0 && in_t.tow < (VP_D + 1) * 86400.0);
#endif
}
void h_calendar(void) {
  day_of();
  gps_time_t t = in_t;
  make_utc_tm(&t, &utc);
  civil(&utc, in_t.wn * 7u + VP_D);
  REACH();
}
void h_clock(void) {
  day_of();
  ASSUME(in_t.wn == 2000); /* the week plays no part, see h_calendar for the date */
  gps_time_t t = in_t;
  make_utc_tm(&t, &utc);
  ENSURE("time of day in range", utc.hour < 24 && utc.minute < 60 && utc.second_int < 60 &&
                                     utc.second_frac >= 0 && utc.second_frac < 1);
  double rel = in_t.tow - VP_D * 86400.0;
  u32 sod = (u32)rel;
  ENSURE("time of day", utc.hour == sod / 3600 && utc.minute == (sod - sod / 3600 * 3600) / 60 &&
                            utc.hour * 3600u + utc.minute * 60u + utc.second_int == sod);
  ENSURE("fraction of the second", utc.second_frac == rel - floor(rel));
  REACH();
}
void h_months(void) {
  HAVOC(in_a);
  HAVOC(in_k);
  VP_RANGE(in_k, 1, 12);
  ENSURE("leap years", is_leap_year(in_a) == leap(in_a));
  ENSURE("length of a month", days_in_month(in_a, in_k) == cum(in_a, in_k) - cum(in_a, in_k - 1u));
  REACH();
}
void h_unix(void) {
  HAVOC(in_x);
  VP_HINT(in_x = (time_t)(vp_rand() % 20000000000ull));
  HAVOC(in_a);
  bool v = unix_time_valid_with_wn_ref(&in_x, in_a);
  ENSURE("valid: after the reference week", v == (in_x > 315964800ll + 604800ll * in_a));
  bool v2 = unix_time_valid(&in_x);
  ENSURE("valid: default reference week 1876", v2 == (in_x > 315964800ll + 604800ll * 1876));
  if (v2 && in_x < 315964800ll + 604800ll * 32768) {
    gps_time_t g = time2gps_t(in_x);
    ENSURE("unix seconds to week and time of week", g.wn >= 0 && g.tow >= 0 && g.tow < W &&
           315964800ll + g.wn * 604800ll + (long long)g.tow == in_x && g.tow == (double)(long long)g.tow);
  }
  REACH();
}
