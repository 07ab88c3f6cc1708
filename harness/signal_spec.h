/* Independent specification of the signal catalogue: the constellation of each
 * code, in code order, and each constellation's satellite numbers. */
#ifndef VP_SIGNAL_SPEC_H
#define VP_SIGNAL_SPEC_H
#include <swiftnav/signal.h>
static const char spec_code_letter[65] =
    "GGSRRGGGGGGGCC" "EEEEEEEEEEEEEEE" "RR" "JJJJJJJJJJ" "SSS"
    "CCCCCCCCCCCC" "GGG" "GSEJC";
static int spec_cons(int code) {
  switch (spec_code_letter[code]) {
    case 'G': return CONSTELLATION_GPS;
    case 'S': return CONSTELLATION_SBAS;
    case 'R': return CONSTELLATION_GLO;
    case 'C': return CONSTELLATION_BDS;
    case 'J': return CONSTELLATION_QZS;
    default: return CONSTELLATION_GAL;
  }
}
static u32 spec_first(int cons) {
  return cons == CONSTELLATION_SBAS ? 120 : cons == CONSTELLATION_QZS ? 193 : 1;
}
static u32 spec_count(int cons) {
  switch (cons) {
    case CONSTELLATION_GPS: return 32;
    case CONSTELLATION_SBAS: return 19;
    case CONSTELLATION_GLO: return 28;
    case CONSTELLATION_BDS: return 64;
    case CONSTELLATION_QZS: return 10;
    default: return 36;
  }
}
static bool spec_code_ok(int code) { return code >= 0 && code < 64; }
static bool spec_sid_ok(gnss_signal_t s) {
  if (!spec_code_ok((int)s.code)) return false;
  u32 f = spec_first(spec_cons((int)s.code));
  return s.sat >= f && s.sat < f + spec_count(spec_cons((int)s.code));
}
static u32 spec_index(gnss_signal_t s) { return s.sat - spec_first(spec_cons((int)s.code)); }
#endif
