/* C26 indices of accuracy, fit interval and lock time; C28 UTC and ionosphere
 * parameters; C29 almanac. */
#include "vp.h"
#include <math.h>
#include <swiftnav/ephemeris.h>
#include <swiftnav/nav_meas.h>
#include "eph_eq.h"
#include "time_spec.h"
static const float URA[16] = {2.0f, 2.8f, 4.0f, 5.7f, 8.0f, 11.3f, 16.0f, 32.0f, 64.0f, 128.0f, 256.0f, 512.0f, 1024.0f, 2048.0f, 4096.0f, 6144.0f};
IN(u8, in_i);
IN(float, in_u);
IN(double, in_s);
IN(u16, in_iodc);
void h_ura(void) {
  HAVOC(in_i);
  HAVOC(in_u);
  VP_HINT(in_u = (vp_rand() % 2 ? URA[vp_rand() % 16] : (float)(vp_rand() % 7000)) + (int)(vp_rand() % 3 - 1) * 1e-3f);
  ENSURE("sixteen accuracies, then none", decode_ura_index(in_i) == (in_i < 16 ? URA[in_i & 15] : -1.0f));
  ENSURE("fifteen BeiDou accuracies, then none", decode_bds_ura_index(in_i) == (in_i < 15 ? URA[in_i & 15] : -1.0f));
  u8 r = encode_ura(in_u);
  if (in_u >= 0 && in_u <= 6144.0f)
    ENSURE("the smallest accuracy that covers the value", r < 16 && URA[r & 15] >= in_u && (r == 0 || URA[(r - 1) & 15] < in_u));
  else
    ENSURE("no index for what the table does not cover", r == 255);
  if (in_i < 16) ENSURE("round trip", encode_ura(decode_ura_index(in_i)) == in_i);
  REACH();
}
static u32 hours(u32 flag, u32 iodc) { /* IS-GPS-200 tables 20-XI, 20-XII */
  if (!flag) return 4;
  if (iodc >= 240 && iodc <= 247) return 8;
  if ((iodc >= 248 && iodc <= 255) || iodc == 496) return 14;
  if ((iodc >= 497 && iodc <= 503) || (iodc >= 1021 && iodc <= 1023)) return 26;
  if (iodc >= 504 && iodc <= 510) return 50;
  if (iodc == 511 || (iodc >= 752 && iodc <= 756)) return 74;
  if (iodc == 757) return 98;
  return 6;
}
void h_fit(void) {
  HAVOC(in_i);
  HAVOC(in_iodc);
  VP_HINT(in_iodc %= 1024; in_i %= 2);
  ENSURE("fit interval of table 20-XII, in seconds", decode_fit_interval(in_i, in_iodc) == hours(in_i, in_iodc) * 3600);
  REACH();
}
static u32 cm(u32 i) { /* OS SIS ICD table 91; spare values read as 6 m */
  return i < 50 ? i : i < 75 ? 50 + (i - 50) * 2 : i < 100 ? 100 + (i - 75) * 4 : i < 126 ? 200 + (i - 100) * 16 : 600;
}
void h_sisa(void) {
  for (int i = 0; i < 255; i++) ENSURE("signal in space accuracy", near((double)decode_sisa_index((u8)i), cm(i) * 0.01, 1e-6));
  ENSURE("no accuracy prediction", decode_sisa_index(255) == -1.0f);
  REACH();
}
void h_lock(void) {
  HAVOC(in_s);
  HAVOC(in_i);
  VP_HINT(in_s = vp_rand() % 3 ? (double)(1u << (vp_rand() % 22)) / 1000 + (double)(int)(vp_rand() % 3 - 1) * 1e-3 : vp_rand() % 3 ? (double)(vp_rand() % 2000) : (double)(vp_rand() >> 20));
  ASSUME(in_s >= 0);
  u8 r = encode_lock_time(in_s);
  double ms = in_s * 1000;
  ENSURE("indicator of the interval that holds the time (DF402)", r <= 15 && (r == 0 || ms >= (double)(1u << (r + 4))) && (r == 15 || ms < (double)(1u << (r + 5))));
  u32 k = in_i & 15;
  ENSURE("minimum lock time of an indicator, upper nibble ignored", decode_lock_time(in_i) == (k ? (double)(1u << (k + 4)) : 0.0) / 1000);
  REACH();
}
void h_lock_trip(void) {
  for (int i = 0; i < 16; i++) ENSURE("round trip of every indicator", encode_lock_time(decode_lock_time((u8)i)) == i);
  ENSURE("times beyond the table", encode_lock_time(1e6) == 15 && encode_lock_time(4294967.295) == 15 && encode_lock_time(4294967.296) == 15 && encode_lock_time(4.3e9) == 15);
  REACH();
}
