/* C09: the signal-id set. Contracts on each operation, over every set state. */
#include "vp.h"
#include <swiftnav/bits.h>
#include <swiftnav/sid_set.h>
#include "signal_spec.h"
IN(gnss_sid_set_t, in_set);
IN(gnss_signal_t, in_x);
IN(gnss_signal_t, in_y);
static gnss_sid_set_t S;
static bool has(const gnss_sid_set_t *s, gnss_signal_t x) {
  return (s->sats[x.code] >> spec_index(x)) & 1;
}
static bool eq(gnss_signal_t a, gnss_signal_t b) { return a.sat == b.sat && a.code == b.code; }
#define PC(v) ((u8)__builtin_popcountll(v))
#if defined(VP_CBMC) && defined(VP_COUNT_BY_CONTRACT)
/* the callee's contract in place of its body (C04 proves it for every word) */
u8 count_bits_u64(u64 v, u8 bv) {
  ENSURE("counts set bits", bv == 1);
  return PC(v);
}
#endif

static void setup(void) {
  HAVOC(in_set);
  HAVOC(in_x);
  HAVOC(in_y);
  VP_HINT(in_x.code = (code_t)(vp_rand() % 64); in_y.code = vp_rand() % 3 ? in_x.code : (code_t)(vp_rand() % 64);
          in_x.sat = spec_first(spec_cons(in_x.code)) + vp_rand() % spec_count(spec_cons(in_x.code));
          in_y.sat = spec_first(spec_cons(in_y.code)) + vp_rand() % spec_count(spec_cons(in_y.code));
          for (int c = 0; c < 64; c++) if (spec_count(spec_cons(c)) < 64) in_set.sats[c] &= (1ull << spec_count(spec_cons(c))) - 1);
  ASSUME(spec_sid_ok(in_x) && spec_sid_ok(in_y));
  /* no bits but those of valid signals: the state every operation keeps */
  for (int c = 0; c < 64; c++)
    ASSUME(spec_count(spec_cons(c)) == 64 || in_set.sats[c] >> spec_count(spec_cons(c)) == 0);
  S = in_set;
}
#define VALID_STATE(c) (spec_count(spec_cons(c)) == 64 || S.sats[c] >> spec_count(spec_cons(c)) == 0)

VP_CONTRACT(void sid_set_init(gnss_sid_set_t *set)
  REQ(set == &S) ENS(!has(&S, in_y)) ENS(S.sats[in_y.code] == 0) ASSIGNS(S))
void h_init(void) {
  setup();
  sid_set_init(&S);
  NATIVE_ENSURE("empty", S.sats[in_y.code] == 0);
  REACH();
}
#define P_ADD (has(&S, in_y) == (eq(in_x, in_y) || has(&in_set, in_y)))
#define P_RM (has(&S, in_y) == (!eq(in_x, in_y) && has(&in_set, in_y)))
#define P_OTHER (in_y.code == in_x.code || S.sats[in_y.code] == in_set.sats[in_y.code])
VP_CONTRACT(void sid_set_add(gnss_sid_set_t *set, gnss_signal_t sid)
  REQ(set == &S && eq(sid, in_x)) ENS(P_ADD) ENS(P_OTHER) ENS(VALID_STATE(in_y.code)) ASSIGNS(S))
void h_add(void) {
  setup();
  sid_set_add(&S, in_x);
  NATIVE_ENSURE("exactly the signal is added", P_ADD && P_OTHER && VALID_STATE(in_y.code));
  REACH();
}
VP_CONTRACT(void sid_set_remove(gnss_sid_set_t *set, gnss_signal_t sid)
  REQ(set == &S && eq(sid, in_x)) ENS(P_RM) ENS(P_OTHER) ENS(VALID_STATE(in_y.code)) ASSIGNS(S))
void h_remove(void) {
  setup();
  sid_set_remove(&S, in_x);
  NATIVE_ENSURE("exactly the signal is removed", P_RM && P_OTHER && VALID_STATE(in_y.code));
  REACH();
}
VP_CONTRACT(bool sid_set_contains(const gnss_sid_set_t *set, gnss_signal_t sid)
  REQ(set == &S && eq(sid, in_x)) ENS(RET == has(&in_set, in_x)) ASSIGNS())
void h_contains(void) {
  setup();
  bool r = sid_set_contains(&S, in_x);
  NATIVE_ENSURE("membership", r == has(&in_set, in_x));
  REACH();
}
static u32 n_sigs(void) {
  u32 n = 0;
  for (int c = 0; c < 64; c++) n += PC(in_set.sats[c]);
  return n;
}
static u32 n_sats(void) {
  u32 n = 0;
  for (int k = 0; k < CONSTELLATION_COUNT; k++) {
    u64 m = 0;
    for (int c = 0; c < 64; c++)
      if (spec_cons(c) == k) m |= in_set.sats[c];
    n += PC(m);
  }
  return n;
}
VP_CONTRACT(u32 sid_set_get_sig_count(const gnss_sid_set_t *set)
  REQ(set == &S) ENS(RET == n_sigs()) ASSIGNS())
void h_sig_count(void) {
  setup();
  u32 r = sid_set_get_sig_count(&S);
  NATIVE_ENSURE("number of signals", r == n_sigs());
  REACH();
}
VP_CONTRACT(u32 sid_set_get_sat_count(const gnss_sid_set_t *set)
  REQ(set == &S) ENS(RET == n_sats()) ASSIGNS())
void h_sat_count(void) {
  setup();
  u32 r = sid_set_get_sat_count(&S);
  NATIVE_ENSURE("number of satellites", r == n_sats());
  REACH();
}
