/* Common vocabulary of every proof harness.
 *
 * The same harness text is compiled two ways:
 *   VP_CBMC   by goto-cc; goto-instrument --dfcc enforces the contracts written
 *             with VP_CONTRACT and cbmc discharges every obligation;
 *   VP_NATIVE by gcc with the sanitizers, to replay a counterexample (or, for
 *             an obligation the solver could not decide, to search for one)
 *             against the real code.
 */
#ifndef VP_H
#define VP_H
#include <stdbool.h>
#include <stddef.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <swiftnav/common.h>

#ifdef VP_CBMC
/* A contract on a function of /repo: prototype plus clauses. */
#define VP_CONTRACT(...) __VA_ARGS__;
#define RET __CPROVER_return_value
#define REQ(...) __CPROVER_requires(__VA_ARGS__)
#define ENS(...) __CPROVER_ensures(__VA_ARGS__)
#define ASSIGNS(...) __CPROVER_assigns(__VA_ARGS__)
#define OBJ(p) __CPROVER_object_whole(p)
/* An input of the harness: any bit pattern of the type. */
#define IN(type, name) static type name
#define HAVOC(name)          \
  do {                       \
    __typeof__(name) vp_any; \
    name = vp_any;           \
  } while (0)
#define ASSUME(c) __CPROVER_assume(c)
/* an obligation stated in the harness (a lemma over the calls made so far) */
#define ENSURE(name, c) __CPROVER_assert((c), name)
/* the same condition is a postcondition clause enforced by dfcc; stated here
 * for the native replay only */
#define NATIVE_ENSURE(name, c) ((void)0)
#define REACH() __CPROVER_assert(0, "VP_REACH")
#define VP_MALLOC(p, n)          \
  do {                           \
    p = malloc(n);               \
    __CPROVER_assume(p != NULL); \
  } while (0)
#define VP_HINT(stmt) ((void)0)
#define IMPLIES(a, b) (!(a) || (b))
/* text of a signal id in log messages only (C11 proves sid_to_string itself) */
#define VP_LOG_SID_STUB                                        \
  int sid_to_string(char *s, int n, const gnss_signal_t sid) { \
    (void)s;                                                   \
    (void)n;                                                   \
    (void)sid;                                                 \
    return 0;                                                  \
  }
#define VP_RANGE(v, lo, hi) __CPROVER_assume((v) >= (lo) && (v) <= (hi))
#else
#define VP_CONTRACT(...)
#define IN(type, name) static type name
#define IMPLIES(a, b) (!(a) || (b))
#define VP_LOG_SID_STUB
void vp_havoc(void *p, size_t n);
void vp_skip(void);
void vp_fail(const char *name, const char *file, int line);
int vp_random_mode(void);
uint64_t vp_rand(void);
#define HAVOC(name) vp_havoc(&(name), sizeof(name))
#define ASSUME(c)      \
  do {                 \
    if (!(c)) vp_skip(); \
  } while (0)
#define ENSURE(name, c)                          \
  do {                                           \
    if (!(c)) vp_fail(name, __FILE__, __LINE__); \
  } while (0)
#define NATIVE_ENSURE(name, c) ENSURE(name, c)
#define REACH() ((void)0)
void *vp_alloc(size_t n);
#define VP_MALLOC(p, n) p = vp_alloc(n)
/* shapes random inputs only: no effect on the proof or on a replay */
#define VP_HINT(stmt)              \
  do {                             \
    if (vp_random_mode()) { stmt; } \
  } while (0)
#define VP_RANGE(v, lo, hi)                                               \
  do {                                                                    \
    if (vp_random_mode() && !((v) >= (lo) && (v) <= (hi)))                \
      (v) = (__typeof__(v))((lo) + (__typeof__(v))(vp_rand() %            \
              ((uint64_t)((hi) - (lo)) + 1ull)));                         \
    if (!((v) >= (lo) && (v) <= (hi))) vp_skip();                         \
  } while (0)
#endif
#endif
