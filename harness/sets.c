/* C08: sorted sets. Elements of A are (key, payload) records of 3 bytes,
 * elements of B are 1-byte keys: different element sizes, compared by key. The
 * code sees elements only through their size and the comparison function. */
#include "vp.h"
#include <swiftnav/set.h>
#ifndef N
#define N 5
#endif
typedef struct { s8 key; u8 pay[2]; } el_t;
typedef s8 bel_t;
struct arr { el_t e[N + 1]; };
struct brr { bel_t k[N]; };
IN(struct arr, in_a);
IN(struct brr, in_b);
IN(u32, in_na);
IN(u32, in_nb);
IN(el_t, in_x);
IN(u32, in_k);
IN(u8, in_null);
#ifdef VP_NA /* one case per length */
#define FIX_NA in_na = VP_NA
#else
#define FIX_NA ((void)0)
#endif
#ifdef VP_NB
#define FIX_NB in_nb = VP_NB
#else
#define FIX_NB ((void)0)
#endif
/* the arrays the code works on: plain bytes */
static u8 A[sizeof(struct arr)], O[sizeof(struct arr)];
static u8 B[sizeof(struct brr)], OB[sizeof(struct brr)];
static el_t X, *pa, *po;
static bel_t *pb, *pob;

static int cmp_el_key(const void *a, const void *b) {
  s32 x = ((const el_t *)a)->key, y = *(const bel_t *)b;
  return (x > y) - (x < y);
}
static int cmp_el_el(const void *a, const void *b) {
  s32 x = ((const el_t *)a)->key, y = ((const el_t *)b)->key;
  return (x > y) - (x < y);
}
static bool same(el_t a, el_t b) { return a.key == b.key && a.pay[0] == b.pay[0] && a.pay[1] == b.pay[1]; }

/* ---- specification ---- */
static bool sorted_a(u32 n) {
  for (u32 i = 1; i < N; i++)
    if (i < n && in_a.e[i - 1].key >= in_a.e[i].key) return false;
  return true;
}
static bool sorted_b(u32 n) {
  for (u32 i = 1; i < N; i++)
    if (i < n && in_b.k[i - 1] >= in_b.k[i]) return false;
  return true;
}
/* number of elements less than x */
static u32 rank_x(void) {
  u32 r = 0;
  for (u32 i = 0; i < N; i++)
    if (i < in_na && in_a.e[i].key < in_x.key) r++;
  return r;
}
static bool in_B(s32 key) {
  for (u32 j = 0; j < N; j++)
    if (j < in_nb && in_b.k[j] == key) return true;
  return false;
}
static u32 n_common(u32 upto) {
  u32 r = 0;
  for (u32 i = 0; i < N; i++)
    if (i < upto && i < in_na && in_B(in_a.e[i].key)) r++;
  return r;
}

static void havoc(u32 max) {
  HAVOC(in_a);
  HAVOC(in_b);
  HAVOC(in_na);
  HAVOC(in_nb);
  HAVOC(in_x);
  HAVOC(in_k);
  HAVOC(in_null);
  VP_HINT(in_na %= max + 1; in_nb %= N + 1; in_k %= N + 1; in_x.key %= 8;
          for (u32 i = 0; i < N; i++) {
            in_a.e[i].key = (i ? in_a.e[i - 1].key : -3) + 1 + (int)(vp_rand() % 2);
            in_b.k[i] = (i ? in_b.k[i - 1] : -3) + 1 + (int)(vp_rand() % 2);
          });
  FIX_NA;
  FIX_NB;
  VP_RANGE(in_na, 0, max);
  VP_RANGE(in_nb, 0, N);
  ASSUME(in_k <= N);
  X = in_x;
#ifdef VP_CBMC
  /* every array ends where its object ends */
  for (u32 i = 0; i <= N; i++)
    if (i < in_na) ((el_t *)A)[N + 1 - in_na + i] = in_a.e[i];
  pa = (el_t *)A + (N + 1 - in_na);
  for (u32 i = 0; i < N; i++)
    if (i < in_nb) ((bel_t *)B)[N - in_nb + i] = in_b.k[i];
  pb = (bel_t *)B + (N - in_nb);
#else
  VP_MALLOC(pa, in_na * sizeof(el_t));
  memcpy(pa, in_a.e, in_na * sizeof(el_t));
  VP_MALLOC(pb, in_nb * sizeof(bel_t));
  memcpy(pb, in_b.k, in_nb * sizeof(bel_t));
#endif
}
static void outputs(u32 na, u32 nb) {
#ifdef VP_CBMC
  memset(&O, 0, sizeof O);
  memset(&OB, 0, sizeof OB);
  po = (el_t *)O + (N + 1 - na);
  pob = (bel_t *)OB + (N - nb);
#else
  VP_MALLOC(po, na * sizeof(el_t));
  VP_MALLOC(pob, nb * sizeof(bel_t));
#endif
}
#define INPUT_KEPT \
  ENSURE("input arrays unchanged", (in_k >= in_na || same(pa[in_k], in_a.e[in_k])) && \
         (in_k >= in_nb || pb[in_k] == in_b.k[in_k]))

/* ---- insertion position ---- */
VP_CONTRACT(u32 insertion_index(u32 na, size_t sa, const void *as, void *b, cmp_fn cmp)
  REQ(na == in_na && sa == sizeof(el_t) && as == pa && b == &X && sorted_a(na))
  ENS(RET == rank_x()) ASSIGNS())
void h_insertion_index(void) {
  havoc(N);
  ASSUME(sorted_a(in_na));
  u32 r = insertion_index(in_na, sizeof(el_t), pa, &X, cmp_el_el);
  NATIVE_ENSURE("number of smaller elements", r == rank_x());
  INPUT_KEPT;
  REACH();
}

/* ---- insert ---- */
#define INS_AT(i) ((i) < rank_x() ? in_a.e[i] : (i) == rank_x() ? in_x : in_a.e[(i) - 1])
#define P_INS(r) ((r) == rank_x())
#define P_INS_OUT (in_k > in_na || same(po[in_k], INS_AT(in_k)))
VP_CONTRACT(u32 insert_element(u32 na, size_t sa, const void *as, void *a_out, void *b, cmp_fn cmp)
  REQ(na == in_na && sa == sizeof(el_t) && as == pa && a_out == po && b == &X && sorted_a(na))
  ENS(P_INS(RET)) ENS(P_INS_OUT) ASSIGNS(O))
void h_insert_element(void) {
  havoc(N);
  ASSUME(sorted_a(in_na));
  outputs(in_na + 1, 0);
  u32 r = insert_element(in_na, sizeof(el_t), pa, po, &X, cmp_el_el);
  NATIVE_ENSURE("position", P_INS(r));
  NATIVE_ENSURE("element added in place", P_INS_OUT);
  INPUT_KEPT;
  REACH();
}

/* ---- remove: the first element not less than x, the last one if none ---- */
static u32 rm_at(void) { u32 r = rank_x(); return in_na && r == in_na ? in_na - 1 : r; }
#define P_RM(r) ((r) == rm_at())
#define P_RM_OUT (in_na == 0 || in_k >= in_na - 1 || \
                  same(po[in_k], in_k < rm_at() ? in_a.e[in_k] : in_a.e[in_k + 1]))
VP_CONTRACT(u32 remove_element(u32 na, size_t sa, const void *as, void *a_out, void *b, cmp_fn cmp)
  REQ(na == in_na && sa == sizeof(el_t) && as == pa && a_out == po && b == &X && sorted_a(na))
  ENS(P_RM(RET)) ENS(P_RM_OUT) ASSIGNS(O))
void h_remove_element(void) {
  havoc(N);
  ASSUME(sorted_a(in_na));
  outputs(in_na ? in_na - 1 : 0, 0);
  u32 r = remove_element(in_na, sizeof(el_t), pa, po, &X, cmp_el_el);
  NATIVE_ENSURE("position", P_RM(r));
  NATIVE_ENSURE("element taken out", P_RM_OUT);
  INPUT_KEPT;
  REACH();
}

/* ---- intersection ---- */
#define P_CAP(r) ((r) == (s32)n_common(in_na))
#define P_CAP_A ((in_null & 1) || in_k >= in_na || !in_B(in_a.e[in_k].key) || \
                 same(po[n_common(in_k)], in_a.e[in_k]))
#define P_CAP_B ((in_null & 2) || in_k >= in_na || !in_B(in_a.e[in_k].key) || \
                 pob[n_common(in_k)] == in_a.e[in_k].key)
VP_CONTRACT(s32 intersection(u32 na, size_t sa, const void *as, void *a_out,
                 u32 nb, size_t sb, const void *bs, void *b_out, cmp_fn cmp)
  REQ(na == in_na && sa == sizeof(el_t) && as == pa && nb == in_nb &&
      sb == sizeof(bel_t) && bs == pb && sorted_a(na) && sorted_b(nb))
  ENS(P_CAP(RET)) ENS(P_CAP_A) ENS(P_CAP_B) ASSIGNS(O, OB))
void h_intersection(void) {
  havoc(N);
  ASSUME(sorted_a(in_na) && sorted_b(in_nb));
  outputs(n_common(in_na), n_common(in_na));
  s32 r = intersection(in_na, sizeof(el_t), pa, (in_null & 1) ? NULL : po, in_nb,
                       sizeof(bel_t), pb, (in_null & 2) ? NULL : pob, cmp_el_key);
  NATIVE_ENSURE("number of common elements", P_CAP(r));
  NATIVE_ENSURE("elements of A", P_CAP_A);
  NATIVE_ENSURE("elements of B", P_CAP_B);
  INPUT_KEPT;
  REACH();
}
/* the callback form: called once per common element, in order, with the
 * matching elements and the running count */
static u32 g_calls, g_bad;
static int g_ctx;
static const el_t *g_a_seen[N + 1];
static const bel_t *g_b_seen[N + 1];
static void cb(void *ctx, u32 n, const void *a, const void *b) {
  if (ctx != &g_ctx || n != g_calls || n > N) { g_bad = 1; return; }
  g_a_seen[n] = a;
  g_b_seen[n] = b;
  g_calls++;
}
#define P_MAP (!g_bad && g_calls == n_common(in_na))
#define P_MAP_K (in_k >= in_na || !in_B(in_a.e[in_k].key) || \
   (g_a_seen[n_common(in_k)] == pa + in_k && *g_b_seen[n_common(in_k)] == in_a.e[in_k].key))
VP_CONTRACT(s32 intersection_map(u32 na, size_t sa, const void *as, u32 nb,
    size_t sb, const void *bs, cmp_fn cmp, void *context,
    void (*f)(void *context, u32 n, const void *a, const void *b))
  REQ(na == in_na && sa == sizeof(el_t) && as == pa && nb == in_nb &&
      sb == sizeof(bel_t) && bs == pb && sorted_a(na) && sorted_b(nb))
  ENS(P_CAP(RET)) ENS(P_MAP) ENS(P_MAP_K)
  ASSIGNS(g_calls, g_bad, g_a_seen, g_b_seen))
void h_intersection_map(void) {
  havoc(N);
  ASSUME(sorted_a(in_na) && sorted_b(in_nb));
  g_calls = g_bad = 0;
  s32 r = intersection_map(in_na, sizeof(el_t), pa, in_nb, sizeof(bel_t), pb,
                           cmp_el_key, &g_ctx, cb);
  NATIVE_ENSURE("number of common elements", P_CAP(r));
  NATIVE_ENSURE("one call per common element", P_MAP);
  NATIVE_ENSURE("with the matching elements in order", P_MAP_K);
  REACH();
}

/* ---- is_set ---- */
#ifdef VP_NS
#define NS (VP_NS + 1)
#define FIX_NS in_ns = VP_NS
#else
#define NS 255
#define FIX_NS ((void)0)
#endif
struct srr { s16 k[NS]; };
IN(struct srr, in_s);
IN(u8, in_ns);
static struct srr S;
static s16 *ps;
static bool strictly_increasing(void) {
  bool ok = true;
  for (u32 i = 1; i < NS; i++)
    if (i < in_ns && S.k[NS - in_ns + i - 1] >= S.k[NS - in_ns + i]) ok = false;
  return ok;
}
static int cmp_key(const void *a, const void *b) {
  s32 x = *(const s16 *)a, y = *(const s16 *)b;
  return (x > y) - (x < y);
}
VP_CONTRACT(bool is_set(u8 n, size_t sz, const void *set, cmp_fn cmp)
  REQ(n == in_ns && sz == sizeof(s16) && set == ps)
  ENS(RET == strictly_increasing()) ASSIGNS())
void h_is_set(void) {
  HAVOC(in_s);
  HAVOC(in_ns);
  VP_HINT(in_ns %= 6; for (u32 i = 0; i < NS; i++) in_s.k[i] =
          (i ? in_s.k[i - 1] : 0) + (s16)(vp_rand() % 9 != 0));
  FIX_NS;
  S = in_s;
#ifdef VP_CBMC
  ps = S.k + (NS - in_ns);
#else
  VP_MALLOC(ps, in_ns * sizeof(s16));
  memcpy(ps, S.k + (NS - in_ns), in_ns * sizeof(s16));
#endif
  bool r = is_set(in_ns, sizeof(s16), ps, cmp_key);
  NATIVE_ENSURE("set exactly when strictly increasing", r == strictly_increasing());
  REACH();
}

/* ---- is_sid_set: signals ordered by constellation, code, satellite ---- */
struct sids { gnss_signal_t s[N]; };
IN(struct sids, in_sids);
static struct sids SS;
static gnss_signal_t *pss;
static int before(gnss_signal_t a, gnss_signal_t b) {
  int ca = sid_to_constellation(a), cb_ = sid_to_constellation(b);
  if (ca != cb_) return ca < cb_;
  if (a.code != b.code) return a.code < b.code;
  return a.sat < b.sat;
}
static bool sids_increasing(void) {
  bool ok = true;
  for (u32 i = 1; i < N; i++)
    if (i < in_ns && !before(in_sids.s[i - 1], in_sids.s[i])) ok = false;
  return ok;
}
VP_CONTRACT(bool is_sid_set(u8 n, const gnss_signal_t *sids)
  REQ(n == in_ns && sids == pss) ENS(RET == sids_increasing()) ASSIGNS())
void h_is_sid_set(void) {
  HAVOC(in_sids);
  HAVOC(in_ns);
  VP_HINT(for (u32 i = 0; i < N; i++) {
            in_sids.s[i].code = (code_t)(vp_rand() % 4);
            in_sids.s[i].sat = (u16)(i + vp_rand() % 2); });
  FIX_NS;
  VP_RANGE(in_ns, 0, N);
  for (u32 i = 0; i < N; i++) ASSUME(in_sids.s[i].code >= 0 && in_sids.s[i].code < CODE_COUNT);
  SS = in_sids;
#ifdef VP_CBMC
  for (u32 i = 0; i < N; i++)
    if (i < in_ns) SS.s[N - in_ns + i] = in_sids.s[i];
  pss = SS.s + (N - in_ns);
#else
  VP_MALLOC(pss, in_ns * sizeof(gnss_signal_t));
  memcpy(pss, in_sids.s, in_ns * sizeof(gnss_signal_t));
#endif
  bool r = is_sid_set(in_ns, pss);
  NATIVE_ENSURE("set exactly when strictly increasing", r == sids_increasing());
  REACH();
}
