/* C13: GLONASS navigation string words and Hamming code (ICD 5.1, section 4.7).
 * C14: immediate data of strings 1-5 (ICD 5.1, tables 4.5, 4.6, 4.9).
 * A string has 85 bits, bit 1 the first bit of word[0]; bits 1..8 are check bits. */
#include "vp.h"
#include <swiftnav/decode_glo.h>
#include "eph_eq.h"
VP_LOG_SID_STUB

IN(glo_string_t, in_s);
IN(u16, in_bi);
IN(u8, in_n);
IN(u8, in_f1);
IN(u8, in_f2);
static u8 bit(const glo_string_t *s, u32 i) { return (s->word[(i - 1) / 32] >> ((i - 1) % 32)) & 1; }
static u32 fld(const glo_string_t *s, u32 lo, u32 n) {
  u32 v = 0;
  for (u32 i = 0; i < n; i++) v |= (u32)bit(s, lo + i) << i;
  return v;
}
static void flip(glo_string_t *s, u32 i) { s->word[(i - 1) / 32] ^= 1u << ((i - 1) % 32); }
static void string(void) {
  HAVOC(in_s);
  VP_HINT(in_s.word[2] &= 0x1fffff);
  ASSUME((in_s.word[2] >> 21) == 0); /* 85 bits */
}
void h_extract(void) {
  HAVOC(in_s);
  HAVOC(in_bi);
  HAVOC(in_n);
  VP_RANGE(in_bi, 1, 85);
  VP_RANGE(in_n, 1, 32);
  ASSUME(in_bi + in_n <= 97);
  glo_string_t k = in_s;
  u32 hi = (in_bi - 1u) / 32;
  u64 two = k.word[hi] | (hi < 2 ? (u64)k.word[hi + 1] << 32 : 0);
  u32 r = extract_word_glo(&in_s, in_bi, in_n);
  ENSURE("the word holds bits i .. i+n-1, bit i lowest",
         r == ((two >> ((in_bi - 1u) % 32)) & ((1ull << in_n) - 1)));
  ENSURE("the string is unchanged", k.word[0] == in_s.word[0] && k.word[1] == in_s.word[1] && k.word[2] == in_s.word[2]);
  REACH();
}
/* Hamming number of data bit i: the (i-8)th integer that is no power of two. The
 * check bit of weight 2^m covers the data bits whose number contains 2^m. */
static u8 hnum[86];
static u32 mask[7][3];
static void hamming(void) {
  u8 h = 2;
  for (int w = 0; w < 7; w++)
    for (int m = 0; m < 3; m++) mask[w][m] = 0;
  for (u32 i = 0; i < 86; i++) hnum[i] = 0;
  for (u32 i = 9; i <= 85; i++) {
    h++;
    if ((h & (h - 1)) == 0) h++;
    hnum[i] = h;
    for (int w = 0; w < 7; w++)
      if (h >> w & 1) mask[w][(i - 1) / 32] |= 1u << ((i - 1) % 32);
  }
}
static u8 par(u32 x) {
  x ^= x >> 16;
  x ^= x >> 8;
  x ^= x >> 4;
  x ^= x >> 2;
  x ^= x >> 1;
  return x & 1;
}
#ifdef VP_PARITY_BY_CONTRACT
#ifdef VP_CBMC
u8 parity(u32 x) { return par(x); } /* C04 */
#endif
#endif
/* ICD: numerals of C1..C7 as a number, and the sum over all bits */
static u8 syndrome(const glo_string_t *s) {
  u8 c = 0;
  for (int w = 0; w < 7; w++)
    c |= (u8)((bit(s, w + 1) ^ par(s->word[0] & mask[w][0]) ^ par(s->word[1] & mask[w][1]) ^
               par(s->word[2] & mask[w][2]))
              << w);
  return c;
}
static s8 verdict(u8 c, u8 sum) {
  if (c == 0 && !sum) return 0;                 /* no error */
  if (c != 0 && (c & (c - 1)) == 0 && sum) return 0; /* one check bit in error */
  if (c == 0 || !sum) return -1;                /* more than one error */
  for (u32 i = 9; i <= 85; i++)
    if (hnum[i] == c) return (s8)i; /* that data bit is in error */
  return -1;
}
void h_detect(void) {
  string();
  hamming();
  u8 sum = par(in_s.word[0] & 0xff) ^ par(in_s.word[0] & 0xffffff00) ^ par(in_s.word[1]) ^ par(in_s.word[2]);
  u8 c = syndrome(&in_s);
  glo_string_t k = in_s;
  s8 r = error_detection_glo(&in_s);
  ENSURE("the verdict is the one of the ICD's Hamming code", r == verdict(c, sum));
  ENSURE("the string is unchanged", k.word[0] == in_s.word[0] && k.word[1] == in_s.word[1] && k.word[2] == in_s.word[2]);
  REACH();
}
/* what the verdicts mean: errors of one and two bits, for the abstract code (the
 * previous goal ties error_detection_glo to it) */
void h_code(void) {
  hamming();
  HAVOC(in_f1);
  HAVOC(in_f2);
  VP_RANGE(in_f1, 1, 85);
  VP_RANGE(in_f2, 1, 85);
  ASSUME(in_f1 != in_f2);
  u8 s1 = in_f1 >= 9 ? hnum[in_f1] : in_f1 == 8 ? 0 : (u8)(1u << (in_f1 - 1));
  u8 s2 = in_f2 >= 9 ? hnum[in_f2] : in_f2 == 8 ? 0 : (u8)(1u << (in_f2 - 1));
  glo_string_t z = {{0, 0, 0}};
  ENSURE("a codeword is accepted", error_detection_glo(&z) == 0);
  flip(&z, in_f1);
  ENSURE("one flipped bit has the syndrome of that bit", syndrome(&z) == s1);
  s8 r = error_detection_glo(&z);
  ENSURE("one flipped data bit is located", in_f1 < 9 || r == in_f1);
  ENSURE("one flipped check bit does no harm", in_f1 >= 8 || r == 0);
  ENSURE("the overall check bit alone is reported", in_f1 != 8 || r == -1);
  flip(&z, in_f2);
  ENSURE("syndromes add up", syndrome(&z) == (s1 ^ s2));
  ENSURE("two flipped bits are never accepted nor 'corrected'",
         error_detection_glo(&z) == -1);
  REACH();
}

/* ---- C14 ------------------------------------------------------------------- */
IN(ephemeris_t, in_e);
IN(glo_time_t, in_tk);
IN(glo_time_t, in_toe);
IN(float, in_tau);
IN(u8, in_age);
IN(s8, in_det); /* shapes native inputs only */
static ephemeris_t e, x;
static glo_time_t tk, toe, xtk, xtoe;
static bool headok, rangeok;
static double sms(u32 lo, u32 n, double c1, double c2) { /* sign-magnitude, scaled */
  double m = fld(&in_s, lo, n) * c1 * c2;
  return bit(&in_s, lo + n) ? -m : m;
}
static void prep(u32 number) {
  string();
  HAVOC(in_e);
  HAVOC(in_tk);
  HAVOC(in_toe);
  HAVOC(in_tau);
  HAVOC(in_age);
  e = in_e;
  tk = in_tk;
  toe = in_toe;
  x = in_e;
  xtk = in_tk;
  xtoe = in_toe;
  VP_HINT(in_det = vp_rand() % 16 != 0; if (vp_rand() % 8) in_s.word[2] = (in_s.word[2] & ~(0xfu << 16)) | number << 16;);
  VP_HINT(if (in_det) { /* make the check bits right */
    hamming();
    u8 c = syndrome(&in_s);
    in_s.word[0] ^= c;
    u8 t = par(in_s.word[0]) ^ par(in_s.word[1]) ^ par(in_s.word[2]);
    in_s.word[0] ^= (u32)t << 7;
  });
  headok = error_detection_glo(&in_s) == 0 && fld(&in_s, 81, 4) == number;
  rangeok = true;
}
/* position 2^-11 km, velocity 2^-20 km/s, acceleration 2^-30 km/s^2; limits
 * 2.7e4 km, 4.3 km/s, 6.2e-9 km/s^2 */
static void posvel(int i) {
  double pos = sms(9, 26, (1 / 2048.0), 1000);
  double vel = sms(41, 23, (1 / 1048576.0), 1000);
  double acc = sms(36, 4, (1 / 1073741824.0), 1000);
  if (pos > 2.7e7 || pos < -2.7e7) rangeok = false;
  if (vel > 4.3e3 || vel < -4.3e3) rangeok = false;
  if (acc > 6.2e-6 || acc < -6.2e-6) rangeok = false;
  x.data.glo.pos[i] = pos;
  x.data.glo.vel[i] = vel;
  x.data.glo.acc[i] = acc;
}
static void judge(bool r, float tau_gps, float xtau, u8 age, u8 xage) {
  ENSURE("accepted exactly when checksum, string number and ranges allow it", r == (headok && rangeok));
  if (!headok) {
    ENSURE("a rejected checksum or string number changes nothing",
           eph_glo_eq(&e, &in_e) && glo_time_eq(&tk, &in_tk) && glo_time_eq(&toe, &in_toe) &&
               f_eq(tau_gps, in_tau) && age == in_age);
  }
  if (r) {
    const ephemeris_glo_t *g = &e.data.glo, *w = &x.data.glo;
    ENSURE("gamma", d_near(g->gamma, w->gamma));
    ENSURE("tau", d_near(g->tau, w->tau));
    ENSURE("d_tau", d_near(g->d_tau, w->d_tau));
    ENSURE("position", d_near(g->pos[0], w->pos[0]) && d_near(g->pos[1], w->pos[1]) && d_near(g->pos[2], w->pos[2]));
    ENSURE("velocity", d_near(g->vel[0], w->vel[0]) && d_near(g->vel[1], w->vel[1]) && d_near(g->vel[2], w->vel[2]));
    ENSURE("acceleration", d_near(g->acc[0], w->acc[0]) && d_near(g->acc[1], w->acc[1]) && d_near(g->acc[2], w->acc[2]));
    ENSURE("slot, health, accuracy, fit interval, issue of data",
           g->fcn == w->fcn && g->iod == w->iod && eph_head_eq(&e, &x));
    ENSURE("times", glo_time_eq(&tk, &xtk) && glo_time_eq(&toe, &xtoe));
    ENSURE("other outputs", f_near(tau_gps, xtau) && age == xage);
  }
  REACH();
}
void h_string1(void) {
  prep(1);
  posvel(0);
  if (fld(&in_s, 72, 5) > 23 || fld(&in_s, 66, 6) > 59) rangeok = false;
  xtk.h = (u8)fld(&in_s, 72, 5);
  xtk.m = (u8)fld(&in_s, 66, 6);
  xtk.s = bit(&in_s, 65) ? 30 : 0;
  u32 p1 = fld(&in_s, 77, 2);
  x.fit_interval = p1 ? (p1 * 15 + 15) * 60 + 600 : in_e.fit_interval ? in_e.fit_interval : 3600 + 600;
  bool r = decode_glo_string_1(&in_s, &e, &tk);
  judge(r, in_tau, in_tau, in_age, in_age);
}
void h_string2(void) {
  prep(2);
  posvel(1);
  u32 tb = fld(&in_s, 70, 7) * 15; /* minutes */
  if (tb < 15 || tb > 1425) rangeok = false;
  xtoe.h = (u8)(tb / 60);
  xtoe.m = (u8)(tb % 60);
  xtoe.s = 0;
  x.health_bits |= bit(&in_s, 80);
  x.data.glo.iod = (u8)((tb * 60) & 0x7f);
  bool r = decode_glo_string_2(&in_s, &e, &toe);
  judge(r, in_tau, in_tau, in_age, in_age);
}
void h_string3(void) {
  prep(3);
  posvel(2);
  x.data.glo.gamma = sms(69, 10, (1 / 1099511627776.0), 1);
  x.health_bits |= bit(&in_s, 65);
  bool r = decode_glo_string_3(&in_s, &e, &toe);
  judge(r, in_tau, in_tau, in_age, in_age);
}
void h_string4(void) {
  static const float ft[16] = {1, 2, 2.5f, 4, 5, 7, 10, 12, 14, 16, 32, 64, 128, 256, 512, -1};
  prep(4);
  x.data.glo.tau = sms(59, 21, (1 / 1073741824.0), 1);
  x.data.glo.d_tau = sms(54, 4, (1 / 1073741824.0), 1);
  u32 slot = fld(&in_s, 11, 5), nt = fld(&in_s, 16, 11);
  if (slot < 1 || slot > 28 || nt > 1461) rangeok = false;
  x.sid.sat = (u16)slot;
  x.ura = ft[fld(&in_s, 30, 4)];
  xtk.nt = xtoe.nt = (u16)nt;
  u8 age = in_age;
  bool r = decode_glo_string_4(&in_s, &e, &tk, &toe, &age);
  judge(r, in_tau, in_tau, age, (u8)fld(&in_s, 49, 5));
}
void h_string5(void) {
  prep(5);
  u32 n4 = fld(&in_s, 32, 5);
  if (n4 == 0 || fld(&in_s, 10, 21) > 2040109) rangeok = false;
  xtk.n4 = xtoe.n4 = (u8)n4;
  float tau = in_tau;
  bool r = decode_glo_string_5(&in_s, &e, &tk, &toe, &tau);
  judge(r, tau, (float)(sms(10, 21, (1 / 1073741824.0), 1)), in_age, in_age);
}
