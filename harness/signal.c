/* C10, C11: signal identifiers, the code catalogue and their text forms. */
#include "vp.h"
#include "signal_spec.h"
IN(gnss_signal_t, in_a);
IN(gnss_signal_t, in_b);
IN(s32, in_code);
IN(u16, in_idx);
static bool eq(gnss_signal_t a, gnss_signal_t b) { return a.sat == b.sat && a.code == b.code; }
static void setup(void) {
  HAVOC(in_a);
  HAVOC(in_b);
  HAVOC(in_code);
  HAVOC(in_idx);
  VP_HINT(in_a.code = (code_t)(vp_rand() % 66 - 1); in_b.code = vp_rand() % 2 ? in_a.code : (code_t)(vp_rand() % 64);
          in_a.sat = (vp_rand() % 2 ? 0 : vp_rand() % 2 ? 118 : 191) + vp_rand() % 70; in_b.sat = in_a.sat + vp_rand() % 2; in_code = (s32)(vp_rand() % 64);
          in_idx = vp_rand() % 64);
}
/* ---- C10 ---- */
VP_CONTRACT(bool sid_valid(gnss_signal_t sid) REQ(eq(sid, in_a)) ENS(RET == spec_sid_ok(in_a)) ASSIGNS())
void h_valid(void) {
  setup();
  bool r = sid_valid(in_a);
  NATIVE_ENSURE("valid exactly in range", r == spec_sid_ok(in_a));
  REACH();
}
VP_CONTRACT(bool constellation_valid(constellation_t c)
  REQ((s32)c == in_code) ENS(RET == (in_code >= 0 && in_code < 6)) ASSIGNS())
void h_cons_valid(void) {
  setup();
  bool r = constellation_valid((constellation_t)in_code);
  NATIVE_ENSURE("six constellations", r == (in_code >= 0 && in_code < 6));
  REACH();
}
VP_CONTRACT(u16 sid_to_code_index(gnss_signal_t sid)
  REQ(eq(sid, in_a) && spec_sid_ok(sid)) ENS(RET == spec_index(in_a))
  ENS(RET < spec_count(spec_cons(in_a.code))) ASSIGNS())
void h_to_index(void) {
  setup();
  ASSUME(spec_sid_ok(in_a));
  u16 r = sid_to_code_index(in_a);
  NATIVE_ENSURE("index", r == spec_index(in_a));
  REACH();
}
#define P_FROM(r) ((s32)(r).code == in_code && (r).sat == spec_first(spec_cons(in_code)) + in_idx)
VP_CONTRACT(gnss_signal_t sid_from_code_index(code_t code, u16 i)
  REQ((s32)code == in_code && i == in_idx) ENS(P_FROM(RET)) ENS(spec_sid_ok(RET)) ASSIGNS())
void h_from_index(void) {
  setup();
  ASSUME(spec_code_ok(in_code) && in_idx < spec_count(spec_cons(in_code)));
  gnss_signal_t r = sid_from_code_index((code_t)in_code, in_idx);
  NATIVE_ENSURE("signal of the index", P_FROM(r) && spec_sid_ok(r));
  REACH();
}
/* lemma over the two contracts above, on the real functions */
void h_roundtrip(void) {
  setup();
  ASSUME(spec_sid_ok(in_a) && spec_sid_ok(in_b));
  u16 i = sid_to_code_index(in_a), j = sid_to_code_index(in_b);
  ENSURE("index maps back", eq(sid_from_code_index(in_a.code, i), in_a));
  ENSURE("no two signals of a code share an index", in_a.code != in_b.code || i != j || eq(in_a, in_b));
  REACH();
}
VP_CONTRACT(gnss_signal_t construct_sid(code_t code, u16 sat)
  REQ((s32)code == in_code && sat == in_idx) ENS((s32)RET.code == in_code && RET.sat == in_idx) ASSIGNS())
void h_construct(void) {
  setup();
  gnss_signal_t r = construct_sid((code_t)in_code, in_idx);
  NATIVE_ENSURE("fields", (s32)r.code == in_code && r.sat == in_idx);
  REACH();
}
VP_CONTRACT(constellation_t sid_to_constellation(gnss_signal_t sid)
  REQ(eq(sid, in_a) && spec_code_ok((s32)sid.code)) ENS((s32)RET == spec_cons(in_a.code)) ASSIGNS())
void h_sid_cons(void) {
  setup();
  ASSUME(spec_code_ok((s32)in_a.code));
  constellation_t r = sid_to_constellation(in_a);
  NATIVE_ENSURE("constellation", (s32)r == spec_cons(in_a.code));
  REACH();
}
VP_CONTRACT(constellation_t code_to_constellation(code_t code)
  REQ((s32)code == in_code) ENS((s32)RET == spec_cons(in_code)) ASSIGNS())
void h_code_cons(void) {
  setup();
  ASSUME(spec_code_ok(in_code));
  constellation_t r = code_to_constellation((code_t)in_code);
  NATIVE_ENSURE("constellation", (s32)r == spec_cons(in_code));
  REACH();
}
VP_CONTRACT(u16 constellation_to_sat_count(constellation_t c)
  REQ((s32)c == in_code) ENS(RET == spec_count(in_code)) ASSIGNS())
void h_sat_count(void) {
  setup();
  ASSUME(in_code >= 0 && in_code < 6);
  u16 r = constellation_to_sat_count((constellation_t)in_code);
  NATIVE_ENSURE("satellites of a constellation", r == spec_count(in_code));
  REACH();
}
static int spec_cmp(gnss_signal_t a, gnss_signal_t b) {
  int ca = spec_cons(a.code), cb = spec_cons(b.code);
  if (ca != cb) return ca < cb ? -1 : 1;
  if (a.code != b.code) return a.code < b.code ? -1 : 1;
  return a.sat < b.sat ? -1 : a.sat > b.sat;
}
static int sgn(int x) { return (x > 0) - (x < 0); }
VP_CONTRACT(int c_compare(const gnss_signal_t a, const gnss_signal_t b)
  REQ(eq(a, in_a) && eq(b, in_b)) ENS(sgn(RET) == spec_cmp(in_a, in_b)) ASSIGNS())
void h_compare(void) {
  setup();
  ASSUME(spec_code_ok((s32)in_a.code) && spec_code_ok((s32)in_b.code));
  int r = sid_compare(in_a, in_b);
  NATIVE_ENSURE("ordered by constellation, code, satellite", sgn(r) == spec_cmp(in_a, in_b));
  REACH();
}
VP_CONTRACT(bool c_equal(const gnss_signal_t a, const gnss_signal_t b)
  REQ(eq(a, in_a) && eq(b, in_b)) ENS(RET == eq(in_a, in_b)) ASSIGNS())
void h_equal(void) {
  setup();
  ASSUME(spec_code_ok((s32)in_a.code) && spec_code_ok((s32)in_b.code));
  bool r = sid_is_equal(in_a, in_b);
  NATIVE_ENSURE("equal exactly when all parts are", r == eq(in_a, in_b));
  REACH();
}
/* the predicates, over every code (a lemma: no contract needed per predicate) */
void h_predicates(void) {
  setup();
  for (in_code = 0; in_code < 64; in_code++) {
  int k = spec_cons(in_code);
  code_t c = (code_t)in_code;
  ENSURE("code_valid", code_valid(c));
  ENSURE("is_gps", is_gps(c) == (k == CONSTELLATION_GPS));
  ENSURE("is_sbas", is_sbas(c) == (k == CONSTELLATION_SBAS));
  ENSURE("is_glo", is_glo(c) == (k == CONSTELLATION_GLO));
  ENSURE("is_bds2", is_bds2(c) == (k == CONSTELLATION_BDS));
  ENSURE("is_qzss", is_qzss(c) == (k == CONSTELLATION_QZS));
  ENSURE("is_gal", is_gal(c) == (k == CONSTELLATION_GAL));
  }
  for (int i = 0; i < 6; i++) {
    ENSURE("L1 code of a constellation", spec_cons(constellation_to_l1_code((constellation_t)i)) == i);
    code_t l5 = constellation_to_l5_code((constellation_t)i);
    ENSURE("L5 code of a constellation", l5 == CODE_INVALID || spec_cons(l5) == i);
    ENSURE("letter of a constellation", (int)char_to_constellation(constellation_to_char((constellation_t)i)) == i);
  }
  REACH();
}
/* ---- C11: text forms and per-code data ---- */
struct label { char c[13]; };
IN(struct label, in_label);
/* plain string comparison, also the body cbmc uses for strcmp */
static bool same_str(const char *a, const char *b) {
  for (int i = 0; i < 13; i++) {
    if (a[i] != b[i]) return false;
    if (!a[i]) return true;
  }
  return false;
}
void h_code_names(void) {
  /* every code, concretely */
  setup();
  for (int i = 0; i < 64; i++) {
    ENSURE("a code's name leads back to the code", (int)code_string_to_enum(code_to_string((code_t)i)) == i);
    ENSURE("a code's name starts with its constellation",
           code_to_string((code_t)i)[0] == (spec_code_letter[i] == 'S' ? 'S' : spec_code_letter[i] == 'C' ? 'B' :
              spec_code_letter[i] == 'J' ? 'Q' : 'G'));
  }
  for (int i = 0; i < 6; i++)
    ENSURE("constellation name", (int)constellation_string_to_enum(constellation_to_string((constellation_t)i)) == i);
  for (int i = 0; i < SUB_CONSTELLATION_COUNT; i++) {
    ENSURE("sub-constellation name", (int)sub_constellation_string_to_enum(sub_constellation_to_string((sub_constellation_t)i)) == i);
    int k = (int)sub_constellation_to_constellation((sub_constellation_t)i);
    const char *s = sub_constellation_to_string((sub_constellation_t)i), *t = constellation_to_string((constellation_t)k);
    ENSURE("sub-constellation belongs to its constellation", s[0] == t[0] && s[1] == t[1] && s[2] == t[2]);
  }
  REACH();
}
/* any other label: a code only if it is that code's name */
static char names[65][16];
static void collect(void) {
  for (int i = 0; i < 64; i++) {
    const char *n = code_to_string((code_t)i);
    for (int j = 0; j < 13; j++) {
      names[i][j] = n[j];
      if (!n[j]) break;
    }
  }
  names[64][0] = '?';
  names[64][1] = 0;
}
VP_CONTRACT(code_t code_string_to_enum(const char *l) REQ(l == in_label.c)
  ENS((s32)RET == CODE_INVALID || (spec_code_ok((s32)RET) && same_str(in_label.c, names[RET])))
  ENS((s32)RET != CODE_INVALID || !same_str(in_label.c, names[in_code])) ASSIGNS())
void h_label(void) {
  setup();
  HAVOC(in_label);
  VP_HINT(if (vp_rand() % 2) strcpy(in_label.c, code_to_string((code_t)(vp_rand() % 64))); if (vp_rand() % 2) in_label.c[vp_rand() % 8] ^= 1);
  collect();
  ASSUME(in_label.c[12] == 0);
  ASSUME(spec_code_ok(in_code));
  code_t r = code_string_to_enum(in_label.c);
  NATIVE_ENSURE("label", (s32)r == CODE_INVALID ? !same_str(in_label.c, names[in_code]) :
                (spec_code_ok((s32)r) && same_str(in_label.c, names[r])));
  REACH();
}
/* text of a signal: name, blank, decimal satellite number */
#ifndef VP_C
#define VP_C 0
#endif
static char T[SID_STR_LEN_MAX];
static const u32 p10[5] = {10000, 1000, 100, 10, 1};
static u32 digit(u32 v, int k) { return (v / p10[k]) % 10; }
/* place of the leading digit of v */
static int lead(u32 v) {
  for (int k = 0; k < 4; k++)
    if (digit(v, k)) return k;
  return 4;
}
static bool text_ok(const char *t, int n) {
  const char *name = spec_code_ok((s32)in_a.code) ? names[in_a.code] : names[64];
  int l = 0;
  for (int i = 0; i < 13 && name[i]; i++) {
    if (t[i] != name[i]) return false;
    l = i + 1;
  }
  int k0 = lead(in_a.sat), d = 5 - k0;
  if (n != l + 1 + d || n > 15 || t[l] != ' ' || t[n] != 0) return false;
  for (int k = 0; k < 5; k++)
    if (k >= k0 && (u32)t[l + 1 + k - k0] != '0' + digit(in_a.sat, k)) return false;
  return true;
}
/* (not through dfcc, which would forget the initial value of file-scope pointers) */
void h_to_string(void) {
  setup();
  collect();
#ifdef VP_EDGES /* every code, at the edges of its satellite range */
  for (int c = 0; c < 64; c++)
    for (int e = 0; e < 3; e++) {
      in_a.code = (code_t)c;
      in_a.sat = e == 2 ? 65535 : (u16)(spec_first(spec_cons(c)) + (e ? spec_count(spec_cons(c)) - 1 : 0));
      int q = sid_to_string(T, sizeof T, in_a);
      ENSURE("name, blank, number", text_ok(T, q));
    }
#else
  in_a.code = (code_t)VP_C;
  int r = sid_to_string(T, sizeof T, in_a);
  ENSURE("name, blank, number", text_ok(T, r));
#endif
  REACH();
}
/* carrier frequencies in units of 10 kHz... the ICD values, by name */
static double spec_freq(int c) {
  switch (c) {
    case CODE_GPS_L1CA: case CODE_AUX_GPS: case CODE_GPS_L1CI: case CODE_GPS_L1CQ: case CODE_GPS_L1CX: case CODE_GPS_L1P:
    case CODE_SBAS_L1CA: case CODE_AUX_SBAS: case CODE_GAL_E1B: case CODE_GAL_E1C: case CODE_GAL_E1X: case CODE_AUX_GAL:
    case CODE_QZS_L1CA: case CODE_AUX_QZS: case CODE_QZS_L1CI: case CODE_QZS_L1CQ: case CODE_QZS_L1CX:
    case CODE_BDS3_B1CI: case CODE_BDS3_B1CQ: case CODE_BDS3_B1CX:
      return 1575420000.0;
    case CODE_GPS_L2CM: case CODE_GPS_L2CL: case CODE_GPS_L2CX: case CODE_GPS_L2P:
    case CODE_QZS_L2CM: case CODE_QZS_L2CL: case CODE_QZS_L2CX:
      return 1227600000.0;
    case CODE_GPS_L5I: case CODE_GPS_L5Q: case CODE_GPS_L5X: case CODE_SBAS_L5I: case CODE_SBAS_L5Q: case CODE_SBAS_L5X:
    case CODE_GAL_E5I: case CODE_GAL_E5Q: case CODE_GAL_E5X: case CODE_QZS_L5I: case CODE_QZS_L5Q: case CODE_QZS_L5X:
    case CODE_BDS3_B5I: case CODE_BDS3_B5Q: case CODE_BDS3_B5X:
      return 1176450000.0;
    case CODE_GAL_E6B: case CODE_GAL_E6C: case CODE_GAL_E6X: return 1278750000.0;
    case CODE_GAL_E7I: case CODE_GAL_E7Q: case CODE_GAL_E7X: case CODE_BDS2_B2:
    case CODE_BDS3_B7I: case CODE_BDS3_B7Q: case CODE_BDS3_B7X: return 1207140000.0;
    case CODE_GAL_E8I: case CODE_GAL_E8Q: case CODE_GAL_E8X: return 1191795000.0;
    case CODE_BDS2_B1: case CODE_AUX_BDS: return 1561098000.0;
    case CODE_BDS3_B3I: case CODE_BDS3_B3Q: case CODE_BDS3_B3X: return 1268520000.0;
    case CODE_GLO_L1P: return 1602000000.0;
    default: return 1246000000.0;
  }
}
static bool near(double a, double b) { return a - b < 1e-4 && b - a < 1e-4; }
void h_code_data(void) {
  setup();
  for (int i = 0; i < 64; i++) {
    code_t c = (code_t)i;
    gnss_signal_t s = construct_sid(c, spec_first(spec_cons(i)));
    if (c != CODE_GLO_L1OF && c != CODE_GLO_L2OF) {
      ENSURE("carrier frequency", near(sid_to_carr_freq(s), spec_freq(i)));
      ENSURE("wavelength", near(sid_to_lambda(s) * 1e6, 299792458.0 / spec_freq(i) * 1e6));
    }
    ENSURE("Doppler bounds are symmetric", code_to_sv_doppler_min(c) == -code_to_sv_doppler_max(c));
    ENSURE("Doppler bounds are not empty", code_to_sv_doppler_max(c) > 0);
    ENSURE("code length is a whole number of milliseconds of chips", code_to_chip_count(c) == 0 || code_to_prn_period_ms(c) > 0);
    ENSURE("phase alignment is a fraction of a cycle", code_to_phase_alignment(c) > -1 && code_to_phase_alignment(c) < 1);
  }
  REACH();
}
/* SBAS */
void h_sbas(void) {
  setup();
  ASSUME(spec_sid_ok(in_a) && spec_cons(in_a.code) == CONSTELLATION_SBAS);
  int r = (int)get_sbas_system(in_a);
  ENSURE("a system or none", r >= SBAS_NONE && r < SBAS_COUNT);
  for (int k = 0; k < SBAS_COUNT; k++) {
    const u8 *l = get_sbas_prn_list((sbas_system_t)k);
    bool in = l[0] == in_a.sat || l[1] == in_a.sat || l[2] == in_a.sat;
    ENSURE("listed by exactly the reported system", in == (r == k));
    for (int i = 0; i < MAX_SBAS_SATS_PER_SYSTEM; i++)
      ENSURE("only SBAS satellites are listed", l[i] == 0 || (l[i] >= 120 && l[i] < 139));
  }
  REACH();
}
