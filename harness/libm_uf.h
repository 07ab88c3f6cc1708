/* The mathematical library as functions of the arguments and nothing else: what
 * is proved for all of them holds for the real ones. */
#ifndef LIBM_UF_H
#define LIBM_UF_H
#ifdef VP_CBMC
#define VP_LIBM1(f)                      \
  double __CPROVER_uninterpreted_m_##f(double); \
  double f(double x) { return __CPROVER_uninterpreted_m_##f(x); }
#define VP_LIBM2(f)                              \
  double __CPROVER_uninterpreted_m_##f(double, double); \
  double f(double x, double y) { return __CPROVER_uninterpreted_m_##f(x, y); }
VP_LIBM1(sin)
VP_LIBM1(cos)
VP_LIBM1(tan)
VP_LIBM1(asin)
VP_LIBM1(acos)
VP_LIBM1(atan)
VP_LIBM1(sqrt)
VP_LIBM1(cbrt)
#ifdef VP_CEIL /* the executions in which it returns this */
double ceil(double x) {
  (void)x;
  return VP_CEIL;
}
#else
VP_LIBM1(ceil)
#endif
VP_LIBM1(exp)
VP_LIBM2(atan2)
VP_LIBM2(pow)
VP_LIBM2(fmod)
#endif
#endif
