/* C30 checked copying and string helpers, C31 status report callbacks,
 * C32 navigation measurements and GLONASS biases. */
#include "vp.h"
#include <math.h>
#include <swiftnav/glonass_phase_biases.h>
#include <swiftnav/memcpy_s.h>
#include <swiftnav/nav_meas.h>
#include <swiftnav/subsystem_status_report.h>
#include <swiftnav/swift_strnlen.h>
#define LEN 16
typedef struct { u8 b[LEN]; } buf_t;
IN(buf_t, in_buf);
IN(size_t, in_ds);
IN(size_t, in_n);
IN(u8, in_d);
IN(u8, in_s);
IN(u8, in_null);
static buf_t buf;
void h_memcpy_s(void) {
  HAVOC(in_buf);
  HAVOC(in_ds);
  HAVOC(in_n);
  HAVOC(in_d);
  HAVOC(in_s);
  HAVOC(in_null);
  VP_HINT({
    if (vp_rand() % 8) in_ds %= LEN + 1;
    if (vp_rand() % 8) in_n %= LEN + 1;
    if (vp_rand() % 8) in_null = 0;
  });
  VP_RANGE(in_d, 0, LEN - 1);
  VP_RANGE(in_s, 0, LEN - 1);
  ASSUME(in_ds <= (size_t)LEN - in_d); /* the destination is as large as stated */
  ASSUME(in_n > in_ds || in_n <= (size_t)LEN - in_s); /* what is copied can be read */
  ASSUME(in_d != in_s);                /* copying onto itself: see DESIGN.md */
  buf = in_buf;
  u8 *d = in_null & 1 ? NULL : buf.b + in_d, *s = in_null & 2 ? NULL : buf.b + in_s;
  memcpy_s_t r = memcpy_s(d, in_ds, s, in_n);
  bool shared = in_d < in_s ? in_d + in_n > in_s : in_s + in_n > in_d;   /* the copied regions overlap */
  bool apart = in_d < in_s ? in_d + in_ds <= in_s : in_s + in_n <= in_d; /* nor does the rest of the destination */
  ENSURE("destination null", (r == MEMCPY_S_DEST_NULL) == (d == NULL));
  if (d) ENSURE("source null", (r == MEMCPY_S_SRC_NULL) == (s == NULL));
  if (d && s) {
    ENSURE("destination size zero", (r == MEMCPY_S_DEST_SIZE_ZERO) == (in_ds == 0));
    if (in_ds) ENSURE("count zero", (r == MEMCPY_S_SRC_SIZE_ZERO) == (in_n == 0));
    if (in_ds && in_n) ENSURE("too large", (r == MEMCPY_S_OVERSIZED) == (in_n > in_ds));
    if (in_ds && in_n && in_n <= in_ds) {
      ENSURE("copied or refused for overlap", r == MEMCPY_S_OK || r == MEMCPY_S_OVERLAP);
      ENSURE("overlapping regions are refused", !shared || r == MEMCPY_S_OVERLAP);
      ENSURE("regions apart are copied", !apart || r == MEMCPY_S_OK);
    }
  }
  bool ok = true;
  for (int i = 0; i < LEN; i++) ok &= buf.b[i] == (r == MEMCPY_S_OK && i >= in_d && (size_t)i < in_d + in_n ? in_buf.b[in_s + i - in_d] : in_buf.b[i]);
  ENSURE("exactly the bytes copied change", ok);
  REACH();
}
void h_strnlen(void) {
  HAVOC(in_buf);
  HAVOC(in_n);
  HAVOC(in_d);
  VP_HINT(for (int i = 0; i < LEN; i++) if (vp_rand() % 12 == 0) in_buf.b[i] = 0; if (vp_rand() % 8) in_n %= LEN + 1);
  VP_RANGE(in_d, 0, LEN);
  size_t len = 0;
  char *p;
  VP_MALLOC(p, in_d ? in_d : 1); /* exactly as large as may be read */
  for (int i = 0; i < in_d; i++) p[i] = (char)in_buf.b[i];
  while (len < in_d && p[len]) len++;
  ASSUME(len < in_d || in_n <= in_d); /* terminated, or longer than the limit */
  ENSURE("length, at most the limit", swift_strnlen(p, in_n) == (len < in_n ? len : in_n));
  REACH();
}
extern const char *truncate_path_(char *path);
void h_path(void) {
  HAVOC(in_buf);
  VP_HINT(for (int i = 0; i < LEN; i++) in_buf.b[i] = "/ab"[vp_rand() % 3]; in_buf.b[vp_rand() % LEN] = 0);
  in_buf.b[LEN - 1] = 0;
  buf = in_buf;
  int n = 0, e, b;
  while (in_buf.b[n]) n++;
  for (e = n; e > 0 && in_buf.b[e - 1] == '/'; e--) ;
  for (b = e; b > 0 && in_buf.b[b - 1] != '/'; b--) ;
  const char *r = truncate_path_((char *)buf.b);
  if (n == 0) {
    ENSURE("empty path", r[0] == 0);
  } else if (e == 0) {
    ENSURE("root", r[0] == '/' && r[1] == 0);
  } else {
    bool ok = true;
    for (int i = 0; i < LEN; i++)
      if (i < e - b) ok &= r[i] == (char)in_buf.b[b + i];
    ENSURE("the last component", ok && r[e - b] == 0);
  }
  REACH();
}

/* ---- C31 ---- */
#define NODES 3
typedef swiftnav_subsystem_status_report_callback_node_t node_t;
typedef struct { u8 n, i[NODES], cb[NODES], ctx[NODES]; } order_t;
static node_t node[NODES];
static u8 ctx[NODES];
static struct { u8 n, cb[2 * NODES], ctx[2 * NODES]; u16 comp; u8 gen, spec; bool same; } seen;
IN(order_t, in_o);
IN(u8, in_y);
IN(u8, in_cb);
IN(u8, in_ctx);
IN(u16, in_comp);
IN(u8, in_gen);
IN(u8, in_spec);
static void note(u8 which, u16 c, u8 g, u8 s, void *x) {
  if (seen.n < 2 * NODES) {
    seen.cb[seen.n] = which;
    seen.ctx[seen.n] = (u8)((u8 *)x - ctx);
  }
  seen.n++;
  seen.same &= c == in_comp && g == in_gen && s == in_spec;
}
static void cb0(uint16_t c, uint8_t g, uint8_t s, void *x) { note(0, c, g, s, x); }
static void cb1(uint16_t c, uint8_t g, uint8_t s, void *x) { note(1, c, g, s, x); }
static void reg(u8 i, u8 cb, u8 x) { swiftnav_subsystem_status_report_callback_register(&node[i], cb ? cb1 : cb0, &ctx[x]); }
static bool sent(int n, const u8 *cb, const u8 *x) {
  memset(&seen, 0, sizeof(seen));
  seen.same = true;
  swiftnav_send_subsystem_status_report(in_comp, in_gen, in_spec);
  bool ok = seen.n == n && seen.same;
  for (int i = 0; i < NODES; i++)
    if (i < n) ok &= seen.cb[i] == cb[i] && seen.ctx[i] == x[i];
  return ok;
}
void h_report(void) {
  HAVOC(in_o);
  HAVOC(in_y);
  HAVOC(in_cb);
  HAVOC(in_ctx);
  HAVOC(in_comp);
  HAVOC(in_gen);
  HAVOC(in_spec);
  VP_HINT({
    u8 x = (u8)vp_rand();
    in_o.n %= NODES + 1;
    for (int i = 0; i < NODES; i++) { in_o.i[i] = (i + x) % NODES; in_o.ctx[i] %= NODES; }
  });
  VP_RANGE(in_y, 0, NODES - 1);
  VP_RANGE(in_ctx, 0, NODES - 1);
  ASSUME(in_o.n <= NODES);
  in_cb &= 1;
  int at = -1;
  /* every list of distinct nodes: registered in that order */
  swiftnav_subsystem_status_report_callback_reset();
  ENSURE("an empty list calls nobody", sent(0, NULL, NULL));
  for (int i = 0; i < NODES; i++) {
    in_o.cb[i] &= 1;
    ASSUME(in_o.ctx[i] < NODES);
    ASSUME(in_o.i[i] < NODES);
    for (int j = 0; j < i; j++) ASSUME(in_o.i[i] != in_o.i[j]);
    if (i >= in_o.n) continue;
    reg(in_o.i[i], in_o.cb[i], in_o.ctx[i]);
    if (in_o.i[i] == in_y) at = i;
  }
  ENSURE("each callback once, in order of registration, with the report and its context", sent(in_o.n, in_o.cb, in_o.ctx));
  ENSURE("and again for the next report", sent(in_o.n, in_o.cb, in_o.ctx));
  swiftnav_subsystem_status_report_callback_deregister(&node[in_y]);
  int n = in_o.n;
  if (at >= 0) {
    n--;
    for (int i = 0; i < NODES - 1; i++)
      if (i >= at) in_o.cb[i] = in_o.cb[i + 1], in_o.ctx[i] = in_o.ctx[i + 1];
  }
  ENSURE("a node deregistered, if it was registered, is called no more; the others still in order", sent(n, in_o.cb, in_o.ctx));
  if (n < NODES) {
    reg(in_y, in_cb, in_ctx);
    in_o.cb[n] = in_cb;
    in_o.ctx[n] = in_ctx;
    ENSURE("it can be registered again, at the end", sent(n + 1, in_o.cb, in_o.ctx));
  }
  swiftnav_subsystem_status_report_callback_reset();
  ENSURE("a reset removes all", sent(0, NULL, NULL));
  REACH();
}

/* ---- C32 ---- */
IN(navigation_measurement_t, in_a);
IN(navigation_measurement_t, in_b);
IN(measurement_std_t, in_sa);
IN(measurement_std_t, in_sb);
IN(glo_biases_t, in_ga);
IN(glo_biases_t, in_gb);
IN(code_t, in_code);
static bool close_(double a, double b) { return fabs(a - b) < FLOAT_EQUALITY_EPS; }
static bool far_(double a, double b) { return fabs(a - b) > FLOAT_EQUALITY_EPS; }
#define SAME_SID(a, b) ((a).code == (b).code && (a).sat == (b).sat)
static void meas_in(void) {
  HAVOC(in_a);
  HAVOC(in_b);
  HAVOC(in_sa);
  HAVOC(in_sb);
  HAVOC(in_code);
  VP_HINT({
    if (vp_rand() % 4) in_b = in_a;
    if (vp_rand() % 4 == 0) ((u8 *)&in_b)[vp_rand() % sizeof(in_b)] ^= 1 << vp_rand() % 8;
    if (vp_rand() % 4) in_sb = in_sa;
    if (vp_rand() % 4 == 0) ((u8 *)&in_sb)[vp_rand() % sizeof(in_sb)] ^= 1 << vp_rand() % 8;
    in_a.sid.code = in_b.sid.code = (code_t)(vp_rand() % CODE_COUNT);
    in_sa.sid.code = in_sb.sid.code = (code_t)(vp_rand() % CODE_COUNT);
  });
  ASSUME((int)in_a.sid.code >= 0 && in_a.sid.code < CODE_COUNT);
  ASSUME((int)in_b.sid.code >= 0 && in_b.sid.code < CODE_COUNT);
  ASSUME((int)in_sa.sid.code >= 0 && in_sa.sid.code < CODE_COUNT);
  ASSUME((int)in_sb.sid.code >= 0 && in_sb.sid.code < CODE_COUNT);
}
void h_flags(void) {
  meas_in();
  ENSURE("a pseudorange is valid exactly when measured and not excluded", pseudorange_valid(&in_a) == ((in_a.flags & 1) && !(in_a.flags & 64)));
  int c = nav_meas_cmp(&in_a, &in_b), s = sid_compare(in_a.sid, in_b.sid);
  ENSURE("ordered by signal", (c < 0) == (s < 0) && (c > 0) == (s > 0));
  REACH();
}
void h_meas_equal(void) {
  meas_in();
  bool e = close_(in_a.raw_pseudorange, in_b.raw_pseudorange) && close_(in_a.raw_carrier_phase, in_b.raw_carrier_phase) &&
           close_(in_a.raw_measured_doppler, in_b.raw_measured_doppler) && close_(in_a.raw_computed_doppler, in_b.raw_computed_doppler);
  for (int i = 0; i < 3; i++) e = e && close_(in_a.sat_pos[i], in_b.sat_pos[i]) && close_(in_a.sat_vel[i], in_b.sat_vel[i]) && close_(in_a.sat_acc[i], in_b.sat_acc[i]);
  e = e && in_a.eph_key == in_b.eph_key && close_(in_a.sat_clock_err, in_b.sat_clock_err) && close_(in_a.sat_clock_err_rate, in_b.sat_clock_err_rate) &&
      close_(in_a.cn0, in_b.cn0) && close_(in_a.lock_time, in_b.lock_time) && close_(in_a.elevation, in_b.elevation) &&
      close_(gpsdifftime(&in_a.tot, &in_b.tot), 0) && SAME_SID(in_a.sid, in_b.sid) && in_a.flags == in_b.flags;
  ENSURE("equal exactly when every field is", nav_meas_equal(&in_a, &in_b) == e);
  bool f = SAME_SID(in_sa.sid, in_sb.sid) && close_(in_sa.iono_std, in_sb.iono_std) && close_(in_sa.tropo_std, in_sb.tropo_std) &&
           close_(in_sa.range_std, in_sb.range_std) && in_sa.flags == in_sb.flags;
  ENSURE("standard deviations likewise", measurement_std_equal(&in_sa, &in_sb) == f);
  REACH();
}
static bool same(double a, double b) { return memcmp(&a, &b, sizeof(a)) == 0 || (a != a && b != b); }
void h_correct(void) {
  HAVOC(in_a);
  in_a.sid.code = VP_CODE;
  double f = sid_to_carr_freq(in_a.sid);
  ENSURE("pseudorange", same(nav_meas_cor_sat_clk_on_pseudorange(&in_a), in_a.raw_pseudorange + GPS_C * in_a.sat_clock_err));
  ENSURE("Doppler", same(nav_meas_cor_sat_clk_on_measured_doppler(&in_a), in_a.raw_measured_doppler + in_a.sat_clock_err_rate * f));
  ENSURE("carrier phase", same(nav_meas_cor_sat_clk_on_carrier_phase(&in_a), in_a.raw_carrier_phase + in_a.sat_clock_err * f));
  REACH();
}
void h_biases(void) {
  HAVOC(in_ga);
  HAVOC(in_gb);
  HAVOC(in_code);
  HAVOC(in_d);
  HAVOC(in_s);
  VP_HINT({
    if (vp_rand() % 4) in_gb = in_ga;
    if (vp_rand() % 4 == 0) ((u8 *)&in_gb)[vp_rand() % sizeof(in_gb)] ^= 1 << vp_rand() % 8;
    in_code = vp_rand() % 2 ? CODE_GLO_L1OF : vp_rand() % 2 ? CODE_GLO_L2OF : (code_t)(vp_rand() % CODE_COUNT);
  });
  ENSURE("equal exactly when the mask is and no bias differs", glonass_biases_are_equal(in_ga, in_gb) ==
    (in_ga.mask == in_gb.mask && !far_(in_ga.l1of_bias_m, in_gb.l1of_bias_m) && !far_(in_ga.l1p_bias_m, in_gb.l1p_bias_m) &&
     !far_(in_ga.l2of_bias_m, in_gb.l2of_bias_m) && !far_(in_ga.l2p_bias_m, in_gb.l2p_bias_m)));
  ENSURE("a flag is set when all its bits are", is_bias_mask_flag_set(in_d, in_s) == ((~in_d & in_s) == 0));
  double x = 0;
  bool l1 = in_code == CODE_GLO_L1OF, l2 = in_code == CODE_GLO_L2OF;
  u8 of = l1 ? RTCM1230_MASK_L1OF : RTCM1230_MASK_L2OF, p = l1 ? RTCM1230_MASK_L1P : RTCM1230_MASK_L2P;
  if (l1 || l2) {
    double own = l1 ? piksi_glonass_biases.l1of_bias_m : piksi_glonass_biases.l2of_bias_m;
    if (in_ga.mask & of) x = own - (l1 ? in_ga.l1of_bias_m : in_ga.l2of_bias_m);
    else if (in_ga.mask & p) x = own - (l1 ? in_ga.l1p_bias_m : in_ga.l2p_bias_m);
  }
  ENSURE("the bias of the open signal, else of the P code, else none", same(get_glonass_bias(in_code, in_ga), x));
  REACH();
}
