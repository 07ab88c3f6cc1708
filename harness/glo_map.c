/* C12: the GLONASS slot / frequency map. The map is private to glo_map.c: every
 * reachable state is built through the API from an arbitrary table of values. */
#include "vp.h"
#include <swiftnav/glo_map.h>
#include "signal_spec.h"
struct tab { u16 f[29]; };
IN(struct tab, in_t);
IN(u16, in_fcn);
IN(u16, in_slot);
IN(u16, in_y);
IN(u8, in_p2);
static u8 m[29]; /* the table's meaning */
static int depth, locks, unlocks, bad;
static gnss_signal_t glo(u16 slot) { return (gnss_signal_t){.sat = slot, .code = in_p2 ? CODE_GLO_L2OF : CODE_GLO_L1OF}; }
static u16 st(u16 slot) { return glo_map_valid(glo(slot)) ? glo_map_get_fcn(glo(slot)) : 0; }
static u16 before;
static void lock_cb(void) {
  if (st(in_slot) != before) bad = 1; /* changed before the lock */
  depth++;
  locks++;
}
static void unlock_cb(void) {
  depth--;
  unlocks++;
}
static void setup(void) {
  HAVOC(in_t);
  HAVOC(in_fcn);
  HAVOC(in_slot);
  HAVOC(in_y);
  HAVOC(in_p2);
  VP_HINT(for (int i = 1; i < 29; i++) in_t.f[i] %= 16; if (vp_rand() % 4) { in_fcn %= 16; in_slot %= 30; });
  VP_RANGE(in_y, 1, 28);
  glo_map_init(NULL, NULL);
  glo_map_clear_all();
  for (u16 i = 1; i < 29; i++) {
    glo_map_set_slot_id(in_t.f[i], i);
    m[i] = in_t.f[i] >= 1 && in_t.f[i] <= 14 ? (u8)in_t.f[i] : 0;
  }
  depth = locks = unlocks = bad = 0;
  glo_map_init(lock_cb, unlock_cb);
}
#define SLOT_OK (in_slot >= 1 && in_slot <= 28)
#define FCN_OK (in_fcn >= 1 && in_fcn <= 14)
#define LOCKED(n) (depth == 0 && locks == (n) && unlocks == (n) && !bad)
void h_read(void) {
  setup();
  ENSURE("a slot is mapped exactly when a valid channel was set", glo_map_valid(glo(in_y)) == (m[in_y] != 0));
  ENSURE("and maps to that channel", m[in_y] == 0 || glo_map_get_fcn(glo(in_y)) == m[in_y]);
  ENSURE("channel range", glo_fcn_is_valid(in_fcn) == FCN_OK);
  ENSURE("slot range", glo_slot_id_is_valid(in_slot) == SLOT_OK);
  REACH();
}
void h_set(void) {
  setup();
  before = SLOT_OK ? m[in_slot] : 0;
  if (!SLOT_OK) glo_map_init(NULL, NULL); /* the callback reads the slot */
  glo_map_set_slot_id(in_fcn, in_slot);
  bool ok = SLOT_OK && FCN_OK;
  ENSURE("exactly that slot is set, and only to a valid channel", st(in_y) == (ok && in_y == in_slot ? in_fcn : m[in_y]));
  ENSURE("one locked update", LOCKED(ok ? 1 : 0) || !SLOT_OK);
  REACH();
}
void h_clear(void) {
  setup();
  ASSUME(SLOT_OK);
  before = m[in_slot];
  glo_map_clear_slot_id(in_slot);
  ENSURE("exactly that slot is cleared", st(in_y) == (in_y == in_slot ? 0 : m[in_y]));
  ENSURE("one locked update", LOCKED(1));
  REACH();
}
void h_clear_all(void) {
  setup();
  glo_map_init(NULL, NULL);
  glo_map_clear_all();
  ENSURE("every slot is cleared", st(in_y) == 0);
  u16 a, b;
  ENSURE("no slot is left", !FCN_OK || glo_map_get_slot_id(in_fcn, &a, &b) == 0);
  REACH();
}
void h_slots(void) {
  setup();
  ASSUME(FCN_OK);
  u16 a = 77, b = 77, ea = 0, eb = 0;
  u8 n = 0;
  for (u16 i = 1; i < 29; i++)
    if (m[i] == in_fcn && n < 2) {
      if (n == 0) ea = i; else eb = i;
      n++;
    }
  u8 r = glo_map_get_slot_id(in_fcn, &a, &b);
  ENSURE("number of slots on the channel, at most two", r == n);
  ENSURE("the lowest two slots, zero for none", a == ea && b == eb);
  ENSURE("the map is unchanged", st(in_y) == m[in_y]);
  REACH();
}
void h_freq(void) {
  in_p2 = 0;
  glo_map_init(NULL, NULL);
  glo_map_clear_all();
  for (u16 f = 1; f <= 14; f++) {
    u16 slot = (u16)(2 * f);
    glo_map_set_slot_id(f, slot);
    for (in_p2 = 0; in_p2 < 2; in_p2++) {
      double e = in_p2 ? 1246e6 + (f - 8) * 437500.0 : 1602e6 + (f - 8) * 562500.0;
      double d = sid_to_carr_freq(glo(slot)) - e, l = sid_to_lambda(glo(slot)) - 299792458.0 / e;
      ENSURE("channel frequency", d < 1e-3 && d > -1e-3);
      ENSURE("channel wavelength", l < 1e-9 && l > -1e-9);
    }
  }
  REACH();
}
