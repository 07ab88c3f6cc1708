/* C21 GPS/QZSS LNAV, C22 BeiDou D1, Galileo I/NAV ephemeris records, and the
 * assembly of GLONASS strings. Field positions and scale factors are those of
 * IS-GPS-200 tables 20-I..III, BDS-SIS-ICD-2.1 figures 5-9..11 and the Galileo
 * OS SIS ICD tables 39..43. */
#include "vp.h"
#include <swiftnav/ephemeris.h>
#include <swiftnav/decode_glo.h>
#include <swiftnav/shm.h>
#include <swiftnav/constants.h>
#include "eph_eq.h"
#include "time_spec.h"
//VP_LOG_SID_STUB
IN(ephemeris_t, in_e);
IN(double, in_tot);
IN(u16, in_ref);
#define PI 3.1415926535898 /* the value of pi the interface specifications use */
static s32 sx(u32 v, int n) { return n == 32 ? (s32)v : n == 16 ? (s16)v : n == 8 ? (s8)v : (s32)(v << (32 - n)) >> (32 - n); }
#define KFIELD(name) ENSURE(#name " is the scaled broadcast field", d_near(a->name, b->name))
static bool kepler_misc_eq(const ephemeris_kepler_t *x, const ephemeris_kepler_t *y) {
  return gps_eq(x->toc, y->toc) && x->iodc == y->iodc && x->iode == y->iode;
}
static void same_eph(const ephemeris_t *e, const ephemeris_t *x) {
  const ephemeris_kepler_t *a = &e->data.kepler, *b = &x->data.kepler;
  ENSURE("identity, health, accuracy, fit interval, source, times", eph_head_eq(e, x));
  ENSURE("clock reference time, issues of data", kepler_misc_eq(a, b));
  ENSURE("group delays", f_near(a->tgd.gps_s[0], b->tgd.gps_s[0]) && f_near(a->tgd.gps_s[1], b->tgd.gps_s[1]));
  KFIELD(af0);
  KFIELD(af1);
  KFIELD(af2);
  KFIELD(crc);
  KFIELD(crs);
  KFIELD(cuc);
  KFIELD(cus);
  KFIELD(cic);
  KFIELD(cis);
  KFIELD(ecc);
  KFIELD(sqrta);
  KFIELD(m0);
  KFIELD(omega0);
  KFIELD(inc);
  KFIELD(w);
  KFIELD(omegadot);
  KFIELD(dn);
  KFIELD(inc_dot);
}
#define SAME_EPH(a, b) same_eph(a, b)

/* ---- GPS LNAV ------------------------------------------------------------------ */
typedef struct {
  u32 w[3][8];
} lnav_t;
IN(lnav_t, in_w);
/* bits first..last of word w (3..10) of subframe sf, numbered from 1 as in the ICD */
static u32 lnav(int sf, int w, int first, int last) {
  return in_w.w[sf - 1][w - 3] >> (30 - last) & ((1u << (last - first + 1)) - 1);
}
IN(bool, in_qzs);
static u32 hours(u32 flag, u32 iodc) {
  if (!flag) return 4;
  if (iodc >= 240 && iodc <= 247) return 8;
  if ((iodc >= 248 && iodc <= 255) || iodc == 496) return 14;
  if ((iodc >= 497 && iodc <= 503) || (iodc >= 1021 && iodc <= 1023)) return 26;
  if (iodc >= 504 && iodc <= 510) return 50;
  if (iodc == 511 || (iodc >= 752 && iodc <= 756)) return 74;
  if (iodc == 757) return 98;
  return 6;
}
static const float URA[16] = {2.0f, 2.8f, 4.0f, 5.7f, 8.0f, 11.3f, 16.0f, 32.0f, 64.0f, 128.0f, 256.0f, 512.0f, 1024.0f, 2048.0f, 4096.0f, 6144.0f};
static u16 full_week(u32 wn10, u16 ref) { return (u16)(wn10 >= ref ? wn10 : ref + ((wn10 - ref) & 1023)); }
void h_lnav(void) {
  HAVOC(in_w);
  HAVOC(in_e);
  HAVOC(in_tot);
  HAVOC(in_ref);
  VP_HINT(in_tot = (double)(vp_rand() % 604800); if (vp_rand() % 2) in_w.w[2][7] = (in_w.w[2][7] & 0x3fffff) | (in_w.w[1][0] & 0x3fc00000); if (vp_rand() % 2) in_w.w[0][5] = (in_w.w[0][5] & 0x3fffff) | (in_w.w[1][0] & 0x3fc00000); in_ref %= 3000);
  ASSUME(in_tot >= 0 && in_tot < W);
  ASSUME(in_ref >= 1 && in_ref <= 31000);
  HAVOC(in_qzs);
  in_e.sid.code = in_qzs ? CODE_QZS_L1CA : CODE_GPS_L1CA;
  ephemeris_t e = in_e, x = in_e;
  u32 toe = lnav(2, 10, 1, 16) * 16;
  u16 wn = full_week(lnav(1, 3, 1, 10), in_ref);
  bool toe_ok = toe < 604800;
  double d = (double)toe - in_tot;
  x.toe.tow = toe;
  x.toe.wn = (s16)(wn + (!toe_ok ? 0 : d > W / 2 ? -1 : d < -W / 2 ? 1 : 0));
  x.ura = URA[lnav(1, 3, 13, 16)];
  x.health_bits = (u8)lnav(1, 3, 17, 22);
  ephemeris_kepler_t *k = &x.data.kepler;
  k->toc.wn = x.toe.wn;
  k->tgd.gps_s[0] = (float)(sx(lnav(1, 7, 17, 24), 8) * 0x1p-31);
  k->tgd.gps_s[1] = 0;
  k->iodc = (u16)(lnav(1, 3, 23, 24) << 8 | lnav(1, 8, 1, 8));
  k->toc.tow = lnav(1, 8, 9, 24) * 16;
  k->af2 = sx(lnav(1, 9, 1, 8), 8) * 0x1p-55;
  k->af1 = sx(lnav(1, 9, 9, 24), 16) * 0x1p-43;
  k->af0 = sx(lnav(1, 10, 1, 22), 22) * 0x1p-31;
  u32 iode2 = lnav(2, 3, 1, 8);
  k->crs = sx(lnav(2, 3, 9, 24), 16) * 0x1p-5;
  k->dn = sx(lnav(2, 4, 1, 16), 16) * (PI * 0x1p-43);
  k->m0 = sx(lnav(2, 4, 17, 24) << 24 | lnav(2, 5, 1, 24), 32) * (PI * 0x1p-31);
  k->cuc = sx(lnav(2, 6, 1, 16), 16) * 0x1p-29;
  k->ecc = (lnav(2, 6, 17, 24) << 24 | lnav(2, 7, 1, 24)) * 0x1p-33;
  k->cus = sx(lnav(2, 8, 1, 16), 16) * 0x1p-29;
  k->sqrta = (lnav(2, 8, 17, 24) << 24 | lnav(2, 9, 1, 24)) * 0x1p-19;
  x.fit_interval = hours(lnav(2, 10, 17, 17), k->iodc) * 3600;
  k->cic = sx(lnav(3, 3, 1, 16), 16) * 0x1p-29;
  k->omega0 = sx(lnav(3, 3, 17, 24) << 24 | lnav(3, 4, 1, 24), 32) * (PI * 0x1p-31);
  k->cis = sx(lnav(3, 5, 1, 16), 16) * 0x1p-29;
  k->inc = sx(lnav(3, 5, 17, 24) << 24 | lnav(3, 6, 1, 24), 32) * (PI * 0x1p-31);
  k->crc = sx(lnav(3, 7, 1, 16), 16) * 0x1p-5;
  k->w = sx(lnav(3, 7, 17, 24) << 24 | lnav(3, 8, 1, 24), 32) * (PI * 0x1p-31);
  k->omegadot = sx(lnav(3, 9, 1, 24), 24) * (PI * 0x1p-43);
  k->iode = (u16)lnav(3, 10, 1, 8);
  k->inc_dot = sx(lnav(3, 10, 9, 22), 14) * (PI * 0x1p-43);
  x.valid = toe_ok && iode2 == k->iode && k->iode == (k->iodc & 255);
  x.source = 0;
  decode_ephemeris_with_wn_ref((const u32(*)[8])in_w.w, &e, in_tot, in_ref);
  SAME_EPH(&e, &x);
  REACH();
}

#define VP_REAL_SIGN_EXTEND
#include "bitext.h"
IN(u32, in_arg);
void h_sign_extend(void) {
  HAVOC(in_arg);
#define SXT(n) ENSURE("sign extension of a field", BITS_SIGN_EXTEND_32(n, in_arg) == VP_SIGN_EXTEND(n, in_arg))
  SXT(4); SXT(5); SXT(6); SXT(7); SXT(8); SXT(9); SXT(10); SXT(11); SXT(12); SXT(13); SXT(14); SXT(15); SXT(16); SXT(17);
  SXT(18); SXT(19); SXT(20); SXT(21); SXT(22); SXT(23); SXT(24); SXT(25); SXT(26); SXT(27); SXT(28); SXT(29); SXT(30); SXT(31); SXT(32);
  REACH();
}
/* the library writes some powers of two in decimal, a few units in the last place off */
static void powers(void) {
  ENSURE("scale factors are the powers of two", d_near(C_1_2P50, 0x1p-50) && d_near(C_1_2P66, 0x1p-66) && d_near(C_1_2P34, 0x1p-34) &&
         d_near(C_1_2P46, 0x1p-46) && d_near(C_1_2P59, 0x1p-59));
}
#define POWERS() powers()

/* ---- BeiDou D1 ----------------------------------------------------------------- */
typedef struct {
  u32 w[3][10];
} d1_t;
IN(d1_t, in_b);
IN(gnss_signal_t, in_sid);
/* bits first..last (1..300) of subframe sf: 30 bits a word */
static u32 d1(int sf, int first, int last) {
  return in_b.w[sf - 1][(first - 1) / 30] >> (29 - (last - 1) % 30) & (u32)((1ull << (last - first + 1)) - 1);
}
#define D2(sf, a, b, c, d) (d1(sf, a, b) << ((d) - (c) + 1) | d1(sf, c, d))
void h_bds(void) {
  HAVOC(in_b);
  HAVOC(in_e);
  HAVOC(in_sid);
  ephemeris_t e = in_e, x = in_e;
  ephemeris_kepler_t *k = &x.data.kepler;
  x.sid = in_sid;
  x.health_bits = (u8)d1(1, 43, 43);
  u32 u = d1(1, 49, 52);
  x.ura = u == 15 ? -1.0f : URA[u];
  x.toe.wn = (s16)(1356 + d1(1, 61, 73));
  u32 toc = D2(1, 74, 82, 91, 98), toe = D2(2, 291, 292, 291, 292) & 3;
  toe = toe << 15 | D2(3, 43, 52, 61, 65);
  x.toe.tow = toe * 8.0;
  k->toc.wn = x.toe.wn;
  k->toc.tow = toc * 8.0;
  k->iodc = (u16)(toc * 8 / 720 % 240);
  k->iode = (u16)(toe * 8 / 720 % 240);
  k->tgd.bds_s[0] = (float)sx(d1(1, 99, 108), 10) * 1e-10f;
  k->tgd.bds_s[1] = (float)sx(D2(1, 109, 112, 121, 126), 10) * 1e-10f;
  k->af2 = sx(d1(1, 215, 225), 11) * C_1_2P66;
  k->af0 = sx(D2(1, 226, 232, 241, 257), 24) * 0x1p-33;
  k->af1 = sx(D2(1, 258, 262, 271, 287), 22) * C_1_2P50;
  k->dn = sx(D2(2, 43, 52, 61, 66), 16) * 0x1p-43 * PI;
  k->cuc = sx(D2(2, 67, 82, 91, 92), 18) * 0x1p-31;
  k->m0 = sx(D2(2, 93, 112, 121, 132), 32) * 0x1p-31 * PI;
  k->ecc = D2(2, 133, 142, 151, 172) * 0x1p-33;
  k->cus = sx(d1(2, 181, 198), 18) * 0x1p-31;
  k->crc = sx(D2(2, 199, 202, 211, 224), 18) * 0x1p-6;
  k->crs = sx(D2(2, 225, 232, 241, 250), 18) * 0x1p-6;
  k->sqrta = D2(2, 251, 262, 271, 290) * 0x1p-19;
  k->inc = sx(D2(3, 66, 82, 91, 105), 32) * 0x1p-31 * PI;
  k->cic = sx(D2(3, 106, 112, 121, 131), 18) * 0x1p-31;
  k->omegadot = sx(D2(3, 132, 142, 151, 163), 24) * 0x1p-43 * PI;
  k->cis = sx(D2(3, 164, 172, 181, 189), 18) * 0x1p-31;
  k->inc_dot = sx(D2(3, 190, 202, 211, 211), 14) * 0x1p-43 * PI;
  k->omega0 = sx(D2(3, 212, 232, 241, 251), 32) * 0x1p-31 * PI;
  k->w = sx(D2(3, 252, 262, 271, 291), 32) * 0x1p-31 * PI;
  x.source = 0;
  decode_bds_d1_ephemeris((const u32(*)[10])in_b.w, in_sid, &e);
  POWERS();
  SAME_EPH(&e, &x);
  REACH();
}

/* ---- Galileo I/NAV -------------------------------------------------------------- */
typedef struct {
  u8 p[5][GAL_INAV_CONTENT_BYTE];
} inav_t;
IN(inav_t, in_p);
static u32 inav(int word, int pos, int n) {
  u32 v = 0;
  for (int i = pos; i < pos + n; i++) v = v << 1 | (in_p.p[word - 1][i / 8] >> (7 - i % 8) & 1);
  return v;
}
static float sisa(u32 i) { /* in metres, OS SIS ICD table 91; spare values read as 6 m */
  u32 cm = i < 50 ? i : i < 75 ? 50 + (i - 50) * 2 : i < 100 ? 100 + (i - 75) * 4 : i < 126 ? 200 + (i - 100) * 16 : 600;
  return i == 255 ? -1.0f : cm * 0.01f;
}
static s32 match(double tow, double tot) { return tow - tot > W / 2 ? -1 : tow - tot < -W / 2 ? 1 : 0; }
void h_inav(void) {
  HAVOC(in_p);
  HAVOC(in_e);
  ephemeris_t e = in_e, x = in_e;
  ephemeris_kepler_t *k = &x.data.kepler;
  u32 toe = inav(1, 16, 14) * 60, toc = inav(4, 54, 14) * 60, tow = inav(5, 85, 20);
  s32 wn = (s32)inav(5, 73, 12) + 1024;
  k->iode = k->iodc = (u16)inav(1, 6, 10);
  x.fit_interval = 4 * 3600;
  x.toe.tow = toe;
  x.toe.wn = (s16)(wn + match(toe, tow));
  k->m0 = sx(inav(1, 30, 32), 32) * 0x1p-31 * PI;
  k->ecc = inav(1, 62, 32) * 0x1p-33;
  k->sqrta = inav(1, 94, 32) * 0x1p-19;
  k->omega0 = sx(inav(2, 16, 32), 32) * 0x1p-31 * PI;
  k->inc = sx(inav(2, 48, 32), 32) * 0x1p-31 * PI;
  k->w = sx(inav(2, 80, 32), 32) * 0x1p-31 * PI;
  k->inc_dot = sx(inav(2, 112, 14), 14) * 0x1p-43 * PI;
  k->omegadot = sx(inav(3, 16, 24), 24) * 0x1p-43 * PI;
  k->dn = sx(inav(3, 40, 16), 16) * 0x1p-43 * PI;
  k->cuc = sx(inav(3, 56, 16), 16) * 0x1p-29;
  k->cus = sx(inav(3, 72, 16), 16) * 0x1p-29;
  k->crc = sx(inav(3, 88, 16), 16) * 0x1p-5;
  k->crs = sx(inav(3, 104, 16), 16) * 0x1p-5;
  x.sid.sat = (u16)inav(4, 16, 6);
  k->cic = sx(inav(4, 22, 16), 16) * 0x1p-29;
  k->cis = sx(inav(4, 38, 16), 16) * 0x1p-29;
  k->toc.tow = toc;
  k->toc.wn = (s16)(wn + match(toc, tow));
  k->af0 = sx(inav(4, 68, 31), 31) * C_1_2P34;
  k->af1 = sx(inav(4, 99, 21), 21) * C_1_2P46;
  k->af2 = sx(inav(4, 120, 6), 6) * C_1_2P59;
  k->tgd.gal_s[0] = (float)sx(inav(5, 47, 10), 10) * 0x1p-32f;
  k->tgd.gal_s[1] = (float)sx(inav(5, 57, 10), 10) * 0x1p-32f;
  u32 e5b = inav(5, 67, 2), e1b = inav(5, 69, 2);
  bool ok = decode_gal_ephemeris_safe((const u8(*)[GAL_INAV_CONTENT_BYTE])in_p.p, &e);
  ENSURE("refused exactly when a reference time is no time of week", ok == (toe < 604800 && toc < 604800));
  if (ok) {
    x.valid = (e5b & 1) == 0 && (e1b & 1) == 0;
    x.source = 0;
    ENSURE("signal accuracy", near((double)e.ura, (double)sisa(inav(3, 120, 8)), 1e-5));
    x.ura = e.ura;
    POWERS();
  SAME_EPH(&e, &x);
  } else {
    ENSURE("a refused ephemeris is not valid", !e.valid);
  }
  REACH();
}
